//! Runs a case with revm's interpreter and with compiled code, recording what an observer sees.
use crate::{case::*, host::SpecHost};
use revm_bytecode::Bytecode;
use revm_context_interface::CreateScheme;
use revm_interpreter::{
    CallInput, CallScheme, CallValue, FrameInput, Gas, InputsImpl, InstructionResult, Interpreter, InterpreterAction, InterpreterResult, SharedMemory,
    instructions::{gas_table_spec, instruction_table},
    interpreter::{EthInterpreter, ExtBytecode},
    interpreter_types::{Jumps, LoopControl, ReturnData},
};
use revm_primitives::{Bytes, KECCAK_EMPTY, U256, hex, keccak256};
use revmc_context::EvmCompilerFn;

pub const MAX_SEGS: usize = 24;

pub enum Exec<'a> {
    /// revm's interpreter; gives up after this many steps.
    Interp { steps: u64, left: u64, pcs: Option<&'a mut Vec<(u32, u64)>> },
    Compiled(EvmCompilerFn),
}

pub fn known_hash(code: &[u8]) -> String {
    hex::encode(if code.is_empty() { KECCAK_EMPTY } else { keccak256(code) })
}

fn interpreter(c: &Case) -> Interpreter {
    let mut parent = SharedMemory::new();
    let input = hex::decode(&c.input).unwrap();
    // The caller's memory: calldata may live there, and bytes of it must never leak.
    let mut psize = c.parent;
    let mut call_input = CallInput::Bytes(Bytes::from(input.clone()));
    if c.shared {
        psize = psize.max(input.len());
        parent.resize(psize);
        for i in 0..psize {
            parent.set_byte(i, 0xee);
        }
        let off = psize - input.len();
        if !input.is_empty() {
            parent.set(off, &input);
        }
        call_input = CallInput::SharedBuffer(off..off + input.len());
    } else {
        parent.resize(psize);
        for i in 0..psize {
            parent.set_byte(i, 0xee);
        }
    }
    let memory = parent.new_child_context();
    let inputs = InputsImpl {
        target_address: w_addr(&c.this),
        bytecode_address: Some(w_addr(&c.this)),
        caller_address: w_addr(&c.caller),
        input: call_input,
        call_value: uw(&c.value),
    };
    let code = hex::decode(&c.code).unwrap();
    let bc = Bytecode::new_legacy(Bytes::from(code));
    let mut i = Interpreter::new(memory, ExtBytecode::new(bc), inputs, c.is_static, c.spec(), c.gas);
    i.gas = Gas::new_with_regular_gas_and_reservoir(c.gas, c.rsv);
    std::mem::forget(parent);
    i
}

fn poison_stack(i: &mut Interpreter, byte: u8) {
    // The unused part of the stack buffer holds leftovers in real use.
    let v = i.stack.data_mut();
    let n = v.len();
    let spare = v.spare_capacity_mut();
    let k = 1024usize.saturating_sub(n).min(spare.len());
    for x in &mut spare[..k] {
        x.write(U256::from_be_bytes([byte; 32]));
    }
}

fn seg(c: &Case, i: &Interpreter, h: &SpecHost, k: &str, has_stack: bool) -> Seg {
    let _ = c;
    Seg {
        k: k.into(),
        why: String::new(),
        gas: i.gas.remaining(),
        rsv: i.gas.reservoir(),
        ssp: i.gas.state_gas_spent(),
        refund: i.gas.refunded(),
        has_stack,
        stack: if has_stack { i.stack.data().iter().map(|x| w(*x)).collect() } else { vec![] },
        mem: hex::encode(&*i.memory.context_memory()),
        out: String::new(),
        world: Some(h.world()),
        req: Req::default(),
    }
}

/// Runs the case to its end, feeding it the scripted outcomes. None: the step budget ran out.
pub fn run(c: &Case, mut ex: Exec<'_>) -> Option<Obs> {
    let mut h = SpecHost::new(c);
    let mut i = interpreter(c);
    let mut obs: Obs = vec![];
    let table = instruction_table::<EthInterpreter, SpecHost>();
    let gas_table = gas_table_spec(c.spec());
    let compiled = matches!(ex, Exec::Compiled(_));
    let mut n = 0usize;
    loop {
        let action = match &mut ex {
            Exec::Interp { steps, left, pcs } => {
                let e = loop {
                    if *left == 0 {
                        return None;
                    }
                    *left -= 1;
                    *steps += 1;
                    if let Some(p) = pcs {
                        p.push((i.bytecode.pc() as u32, i.gas.remaining()));
                    }
                    if let Err(e) = i.step(&table, &gas_table, &mut h) {
                        break e;
                    }
                };
                if i.bytecode.action().is_none() {
                    i.halt(e);
                }
                i.take_next_action()
            }
            Exec::Compiled(f) => {
                poison_stack(&mut i, c.cfg.garbage);
                unsafe { f.call_with_interpreter(&mut i, &mut h) }
            }
        };
        if !h.stray.is_empty() {
            let mut s = seg(c, &i, &h, "crash", false);
            s.why = format!("host called for another account: {}", h.stray[0]);
            obs.push(s);
            return Some(obs);
        }
        match action {
            InterpreterAction::NewFrame(FrameInput::Call(ci)) => {
                let mut s = seg(c, &i, &h, "call", true);
                let input = match &ci.input {
                    CallInput::Bytes(b) => b.to_vec(),
                    CallInput::SharedBuffer(r) if r.is_empty() => vec![],
                    CallInput::SharedBuffer(r) => i.memory.global_slice_range(r.clone()).to_vec(),
                };
                s.req = Req {
                    scheme: match ci.scheme {
                        CallScheme::Call => "call",
                        CallScheme::CallCode => "callcode",
                        CallScheme::DelegateCall => "delegatecall",
                        CallScheme::StaticCall => "staticcall",
                    }
                    .into(),
                    target: addr_w(ci.target_address),
                    caller: addr_w(ci.caller),
                    code_addr: addr_w(ci.bytecode_address),
                    value: w(match ci.value {
                        CallValue::Transfer(v) | CallValue::Apparent(v) => v,
                    }),
                    transfer: matches!(ci.value, CallValue::Transfer(_)),
                    gas: ci.gas_limit,
                    input: hex::encode(input),
                    out_off: if ci.return_memory_offset.is_empty() { 0 } else { ci.return_memory_offset.start as u64 },
                    out_len: ci.return_memory_offset.len() as u64,
                    is_static: ci.is_static,
                    rsv: ci.reservoir,
                    charged: ci.charged_new_account_state_gas,
                    code: String::new(),
                    salt: String::new(),
                    khash: known_hash(ci.known_bytecode.1.original_byte_slice()),
                };
                if hex::encode(ci.known_bytecode.0) != s.req.khash {
                    s.req.khash = format!("inconsistent {} {}", s.req.khash, hex::encode(ci.known_bytecode.0));
                }
                obs.push(s);
                if n >= c.script.len() || n >= MAX_SEGS {
                    return Some(obs);
                }
                let o = &c.script[n];
                n += 1;
                resume(c, &mut i, &mut h, o, ci.gas_limit, ci.reservoir, Some(ci.return_memory_offset.clone()));
            }
            InterpreterAction::NewFrame(FrameInput::Create(ci)) => {
                let mut s = seg(c, &i, &h, "create", true);
                s.req = Req {
                    caller: addr_w(ci.caller()),
                    value: w(ci.value()),
                    gas: ci.gas_limit(),
                    rsv: ci.reservoir(),
                    code: hex::encode(ci.init_code()),
                    ..Default::default()
                };
                match ci.scheme() {
                    CreateScheme::Create => s.req.scheme = "create".into(),
                    CreateScheme::Create2 { salt } => {
                        s.req.scheme = "create2".into();
                        s.req.salt = w(salt);
                    }
                    CreateScheme::Custom { .. } => s.req.scheme = "custom".into(),
                }
                obs.push(s);
                if n >= c.script.len() || n >= MAX_SEGS {
                    return Some(obs);
                }
                let o = &c.script[n];
                n += 1;
                resume(c, &mut i, &mut h, o, ci.gas_limit(), ci.reservoir(), None);
            }
            InterpreterAction::NewFrame(_) => {
                let mut s = seg(c, &i, &h, "crash", false);
                s.why = "empty frame request".into();
                obs.push(s);
                return Some(obs);
            }
            InterpreterAction::Return(InterpreterResult { result, output, gas }) => {
                let k = match result {
                    InstructionResult::Stop => "stop",
                    InstructionResult::Return => "return",
                    InstructionResult::SelfDestruct => "selfdestruct",
                    InstructionResult::Revert => "revert",
                    _ => "halt",
                };
                let mut s = seg(c, &i, &h, k, !compiled || c.cfg.inspect);
                s.why = format!("{result:?}");
                s.out = hex::encode(&output);
                if gas != i.gas {
                    s.gas = gas.remaining();
                    s.rsv = gas.reservoir();
                    s.ssp = gas.state_gas_spent();
                    s.refund = gas.refunded();
                }
                obs.push(s);
                return Some(obs);
            }
        }
    }
}

fn resume(c: &Case, i: &mut Interpreter, h: &mut SpecHost, o: &Outcome, gas: u64, rsv: u64, window: Option<std::ops::Range<usize>>) {
    let ok = o.r == "ok";
    let ok_or_revert = ok || o.r == "revert";
    let out = Bytes::from(hex::decode(&o.out).unwrap());
    let used = o.rsv_used.min(rsv);
    if ok {
        for (k, v) in &o.sstore {
            h.child_sstore(uw(k), uw(v));
        }
    }
    let item;
    let create = window.is_none();
    if let Some(win) = window {
        let n = win.len().min(out.len());
        item = U256::from(ok as u8);
        if ok_or_revert {
            i.gas.erase_cost(gas / 256 * o.frac);
            if n > 0 {
                i.memory.set(win.start, &out[..n]);
            }
        }
        i.return_data.set_buffer(out);
    } else {
        if o.r == "revert" {
            i.return_data.set_buffer(out);
        } else {
            i.return_data.clear();
        }
        item = if ok { uw(&o.addr) } else { U256::ZERO };
        if ok_or_revert {
            i.gas.erase_cost(gas / 256 * o.frac);
        }
    }
    if ok {
        i.gas.set_reservoir(rsv - used);
        i.gas.set_state_gas_spent(i.gas.state_gas_spent() + used as i64);
        i.gas.record_refund(o.refund);
    } else {
        i.gas.set_reservoir(rsv);
    }
    // A failed create gives back the state gas charged for it.
    if create && !ok && c.eip8037 {
        i.gas.refill_reservoir(c.gp["create_state"]);
    }
    let _ = i.stack.push(item);
}

/// The fields in which two observations of the same case differ (empty: they agree).
///
/// Any halt equals any other halt; what a halt leaves behind is not observable. After a revert the
/// world is rolled back by the caller, so only gas, output, stack and memory count.
pub fn diff(a: &Obs, b: &Obs) -> Vec<(usize, String)> {
    let mut d = vec![];
    for n in 0..a.len().max(b.len()) {
        let (Some(x), Some(y)) = (a.get(n), b.get(n)) else {
            d.push((n, "kind".into()));
            break;
        };
        if x.k != y.k {
            d.push((n, if x.k == "crash" || y.k == "crash" { "crash".into() } else { "kind".into() }));
            break;
        }
        if x.k == "halt" {
            break;
        }
        let mut f = |name: &str, eq: bool| {
            if !eq {
                d.push((n, name.to_string()));
            }
        };
        f("gas", x.gas == y.gas && x.rsv == y.rsv && x.ssp == y.ssp);
        f("refund", x.refund == y.refund);
        if x.has_stack && y.has_stack {
            f("stack", x.stack == y.stack);
        }
        f("mem", x.mem == y.mem);
        f("out", x.out == y.out);
        f("req", x.req == y.req);
        if x.k != "revert" {
            f("world", x.world == y.world);
        }
        if !d.is_empty() {
            break;
        }
    }
    d
}
