//! Records what the handler does with frames, and what an inspector is told.
use crate::db::Db;
use revm_context::{FrameStack, LocalContextTr};
use revm_context_interface::{ContextTr, JournalTr};
use revm_handler::{EthFrame, EvmTr, FrameInitOrResult, FrameResult, FrameTr, ItemOrResult, MainnetContext, MainnetEvm, evm::ContextDbError, evm::FrameInitResult};
use revm_inspector::{Inspector, InspectorEvmTr};
use revm_interpreter::{CallInput, CallInputs, CallOutcome, CreateInputs, CreateOutcome, FrameInput, InstructionResult, InterpreterResult, interpreter::EthInterpreter};
use revm_primitives::{Address, Bytes, Log, U256};
use serde_json::{Value, json};
use std::{cell::RefCell, rc::Rc};

pub type Ctx = MainnetContext<Db>;
pub type Inner = MainnetEvm<Ctx, Insp>;

pub fn class(r: InstructionResult) -> &'static str {
    if r.is_ok() {
        "ok"
    } else if r.is_revert() {
        "revert"
    } else {
        "halt"
    }
}

fn gas_of(r: &InterpreterResult) -> String {
    match class(r.result) {
        "ok" => format!("{:?} left {} refund {} reservoir {} state {} out {}", r.result, r.gas.remaining(), r.gas.refunded(), r.gas.reservoir(), r.gas.state_gas_spent(), r.output),
        "revert" => format!("revert left {} reservoir {} out {}", r.gas.remaining(), r.gas.reservoir(), r.output),
        _ => "halt".into(),
    }
}

fn input<C: ContextTr>(ctx: &C, i: &CallInput) -> String {
    match i {
        CallInput::Bytes(b) => b.to_string(),
        CallInput::SharedBuffer(r) => match ctx.local().shared_memory_buffer_slice(r.clone()) {
            Some(s) => Bytes::copy_from_slice(&s).to_string(),
            None => "0x".into(),
        },
    }
}

pub fn call<C: ContextTr>(ctx: &C, i: &CallInputs) -> String {
    let w = if i.return_memory_offset.is_empty() { 0..0 } else { i.return_memory_offset.clone() };
    format!(
        "{:?} from {} to {} code {} {} value {:?} gas {} {} static {} window {w:?} in {}",
        i.scheme,
        i.caller,
        i.target_address,
        i.bytecode_address,
        i.known_bytecode.0,
        i.value,
        i.gas_limit,
        i.reservoir,
        i.is_static,
        input(ctx, &i.input)
    )
}

pub fn create(i: &CreateInputs) -> String {
    format!("{:?} from {} value {} gas {} {} init {}", i.scheme(), i.caller(), i.value(), i.gas_limit(), i.reservoir(), i.init_code())
}

fn result(r: &FrameResult) -> (&'static str, String) {
    match r {
        FrameResult::Call(o) => (class(o.result.result), format!("call {} precompile {}", gas_of(&o.result), o.was_precompile_called)),
        FrameResult::Create(o) => (class(o.result.result), format!("create {} at {:?}", gas_of(&o.result), o.address)),
    }
}

#[derive(Default)]
pub struct Rec {
    pub ev: Vec<Value>,
    /// A frame is about to run; whether the interpreter has.
    pub expect: bool,
    pub interp: bool,
    pub code: String,
}

impl Rec {
    pub fn ran(&mut self) {
        if self.expect {
            let e = if self.interp { "I" } else { "C" };
            self.ev.push(json!({"t": "run", "e": e, "x": "", "c": ""}));
        }
        self.expect = false;
        self.interp = false;
    }
}

pub struct Probe {
    pub inner: Inner,
    pub rec: Rc<RefCell<Rec>>,
}

impl EvmTr for Probe {
    type Context = Ctx;
    type Instructions = <Inner as EvmTr>::Instructions;
    type Precompiles = <Inner as EvmTr>::Precompiles;
    type Frame = EthFrame;
    fn all(&self) -> (&Self::Context, &Self::Instructions, &Self::Precompiles, &FrameStack<Self::Frame>) {
        self.inner.all()
    }
    fn all_mut(&mut self) -> (&mut Self::Context, &mut Self::Instructions, &mut Self::Precompiles, &mut FrameStack<Self::Frame>) {
        self.inner.all_mut()
    }
    fn frame_init(&mut self, f: <Self::Frame as FrameTr>::FrameInit) -> Result<FrameInitResult<'_, Self::Frame>, ContextDbError<Self::Context>> {
        let x = match &f.frame_input {
            FrameInput::Call(i) => call(&self.inner.ctx, i),
            FrameInput::Create(i) => create(i),
            FrameInput::Empty => "empty".into(),
        };
        let x = format!("{} {x}", f.depth);
        self.rec.borrow_mut().ran();
        let r = self.inner.frame_init(f)?;
        let mut rec = self.rec.borrow_mut();
        match r {
            ItemOrResult::Item(f) => {
                let c = f.interpreter.bytecode.get_or_calculate_hash();
                rec.ev.push(json!({"t": "init", "x": x, "c": format!("{c:x}")[..12], "e": ""}));
                rec.expect = true;
                Ok(ItemOrResult::Item(f))
            }
            ItemOrResult::Result(r) => {
                rec.ev.push(json!({"t": "none", "x": x, "c": "", "e": ""}));
                Ok(ItemOrResult::Result(r))
            }
        }
    }
    fn frame_run(&mut self) -> Result<FrameInitOrResult<Self::Frame>, ContextDbError<Self::Context>> {
        self.rec.borrow_mut().interp = true;
        self.inner.frame_run()
    }
    fn frame_return_result(&mut self, r: <Self::Frame as FrameTr>::FrameResult) -> Result<Option<<Self::Frame as FrameTr>::FrameResult>, ContextDbError<Self::Context>> {
        let own = self.inner.frame_stack().get().is_finished();
        {
            let mut rec = self.rec.borrow_mut();
            rec.ran();
            let (k, x) = result(&r);
            rec.ev.push(json!({"t": if own { "ret" } else { "back" }, "x": x, "c": "", "e": k}));
        }
        let r = self.inner.frame_return_result(r)?;
        self.rec.borrow_mut().expect = r.is_none();
        Ok(r)
    }
}

impl InspectorEvmTr for Probe {
    type Inspector = Insp;
    fn all_inspector(&self) -> (&Self::Context, &Self::Instructions, &Self::Precompiles, &FrameStack<Self::Frame>, &Self::Inspector) {
        self.inner.all_inspector()
    }
    fn all_mut_inspector(&mut self) -> (&mut Self::Context, &mut Self::Instructions, &mut Self::Precompiles, &mut FrameStack<Self::Frame>, &mut Self::Inspector) {
        self.inner.all_mut_inspector()
    }
    fn inspect_frame_run(&mut self) -> Result<FrameInitOrResult<Self::Frame>, ContextDbError<Self::Context>> {
        self.rec.borrow_mut().interp = true;
        self.inner.inspect_frame_run()
    }
}

/// Told about frames, logs and self-destructs; sometimes answers in a frame's place.
#[derive(Clone, Default)]
pub struct Insp {
    pub ev: Rc<RefCell<Vec<Value>>>,
    pub meddle: bool,
}

fn small(s: &str) -> u64 {
    s.bytes().fold(1469598103934665603u64, |h, b| (h ^ b as u64).wrapping_mul(1099511628211)) >> 20
}

impl Insp {
    fn put(&self, t: &str, x: String, e: &str) {
        self.ev.borrow_mut().push(json!({"t": t, "x": x, "e": e}));
    }
}

impl<C: ContextTr<Journal: JournalTr>> Inspector<C, EthInterpreter> for Insp {
    fn log(&mut self, _: &mut C, l: Log) {
        self.put("log", format!("{} {:?} {}", l.address, l.topics(), l.data.data), "");
    }
    fn call(&mut self, ctx: &mut C, i: &mut CallInputs) -> Option<CallOutcome> {
        let s = call(ctx, i);
        let n = small(&s);
        self.put("start", s, "");
        if self.meddle && n % 7 == 0 {
            let r = if n % 2 == 0 { InstructionResult::Return } else { InstructionResult::Revert };
            let out = Bytes::from(vec![n as u8; (n % 50) as usize]);
            return Some(CallOutcome::new(
                InterpreterResult { result: r, output: out, gas: revm_interpreter::Gas::new(i.gas_limit) },
                i.return_memory_offset.clone(),
            ));
        }
        None
    }
    fn call_end(&mut self, ctx: &mut C, i: &CallInputs, o: &mut CallOutcome) {
        let s = call(ctx, i);
        self.put("end", format!("{s} => {}", gas_of(&o.result)), class(o.result.result));
        // Only what code compiled or not must hand on: the outcome replaced by another.
        if self.meddle && small(&s) % 5 == 0 && !o.result.result.is_halt() {
            o.result.output = Bytes::from(vec![9; 33]);
        }
    }
    fn create(&mut self, _: &mut C, i: &mut CreateInputs) -> Option<CreateOutcome> {
        self.put("start", create(i), "");
        None
    }
    fn create_end(&mut self, _: &mut C, i: &CreateInputs, o: &mut CreateOutcome) {
        self.put("end", format!("{} => {} at {:?}", create(i), gas_of(&o.result), o.address), class(o.result.result));
    }
    fn selfdestruct(&mut self, a: Address, t: Address, v: U256) {
        self.put("destroy", format!("{a} to {t} with {v}"), "");
    }
}
