//! The subset of inkwell the runner uses, over LLVM-C 18.
#![allow(non_snake_case, non_camel_case_types, clippy::all)]

pub mod llvm_sys {
    use std::ffi::{c_char, c_int, c_uint, c_void};
    macro_rules! opaque { ($($n:ident)*) => { $( #[repr(C)] pub struct $n { _p: [u8; 0] } )* } }
    opaque! { LLVMContext LLVMModule LLVMMemoryBuffer LLVMExecutionEngine LLVMValue LLVMTarget LLVMOpaqueTargetMachine LLVMOpaqueError
        LLVMOpaquePassBuilderOptions LLVMOpaqueAttributeRef LLVMOpaqueGenericValue LLVMType }
    pub type LLVMContextRef = *mut LLVMContext;
    pub type LLVMModuleRef = *mut LLVMModule;
    pub type LLVMMemoryBufferRef = *mut LLVMMemoryBuffer;
    pub type LLVMExecutionEngineRef = *mut LLVMExecutionEngine;
    pub type LLVMValueRef = *mut LLVMValue;
    pub type LLVMTargetRef = *mut LLVMTarget;
    pub type LLVMTargetMachineRef = *mut LLVMOpaqueTargetMachine;
    pub type LLVMErrorRef = *mut LLVMOpaqueError;
    pub type LLVMPassBuilderOptionsRef = *mut LLVMOpaquePassBuilderOptions;
    pub type LLVMAttributeRef = *mut LLVMOpaqueAttributeRef;
    pub type LLVMGenericValueRef = *mut LLVMOpaqueGenericValue;
    pub type LLVMTypeRef = *mut LLVMType;
    pub type LLVMBool = c_int;

    pub mod core {
        use super::*;
        extern "C" {
            pub fn LLVMContextCreate() -> LLVMContextRef;
            pub fn LLVMContextDispose(c: LLVMContextRef);
            pub fn LLVMDisposeMessage(m: *mut c_char);
            pub fn LLVMCreateMemoryBufferWithMemoryRange(data: *const c_char, len: usize, name: *const c_char, nul: LLVMBool) -> LLVMMemoryBufferRef;
            pub fn LLVMCreateMemoryBufferWithContentsOfFile(path: *const c_char, out: *mut LLVMMemoryBufferRef, msg: *mut *mut c_char) -> LLVMBool;
            pub fn LLVMDisposeMemoryBuffer(b: LLVMMemoryBufferRef);
            pub fn LLVMDisposeModule(m: LLVMModuleRef);
            pub fn LLVMGetFirstFunction(m: LLVMModuleRef) -> LLVMValueRef;
            pub fn LLVMGetNextFunction(f: LLVMValueRef) -> LLVMValueRef;
            pub fn LLVMGetValueName2(v: LLVMValueRef, len: *mut usize) -> *const c_char;
            pub fn LLVMGetLastFunction(m: LLVMModuleRef) -> LLVMValueRef;
            pub fn LLVMGetPreviousFunction(f: LLVMValueRef) -> LLVMValueRef;
            pub fn LLVMGetNamedFunction(m: LLVMModuleRef, name: *const c_char) -> LLVMValueRef;
            pub fn LLVMGetParam(f: LLVMValueRef, i: c_uint) -> LLVMValueRef;
            pub fn LLVMIsDeclaration(f: LLVMValueRef) -> LLVMBool;
            pub fn LLVMGlobalGetValueType(f: LLVMValueRef) -> LLVMTypeRef;
            pub fn LLVMGetReturnType(t: LLVMTypeRef) -> LLVMTypeRef;
            pub fn LLVMCountParamTypes(t: LLVMTypeRef) -> c_uint;
            pub fn LLVMIsFunctionVarArg(t: LLVMTypeRef) -> LLVMBool;
            pub fn LLVMGetTypeKind(t: LLVMTypeRef) -> c_int;
            pub fn LLVMGetIntTypeWidth(t: LLVMTypeRef) -> c_uint;
            pub fn LLVMGetTypeContext(t: LLVMTypeRef) -> LLVMContextRef;
            pub fn LLVMFloatTypeInContext(c: LLVMContextRef) -> LLVMTypeRef;
            pub fn LLVMDoubleTypeInContext(c: LLVMContextRef) -> LLVMTypeRef;
            pub fn LLVMInt1TypeInContext(c: LLVMContextRef) -> LLVMTypeRef;
            pub fn LLVMInt32TypeInContext(c: LLVMContextRef) -> LLVMTypeRef;
            pub fn LLVMInt64TypeInContext(c: LLVMContextRef) -> LLVMTypeRef;
            pub fn LLVMGetModuleContext(m: LLVMModuleRef) -> LLVMContextRef;
            pub fn LLVMGetBufferStart(b: LLVMMemoryBufferRef) -> *const c_char;
            pub fn LLVMGetBufferSize(b: LLVMMemoryBufferRef) -> usize;
            pub fn LLVMCreateMemoryBufferWithMemoryRangeCopy(data: *const c_char, len: usize, name: *const c_char) -> LLVMMemoryBufferRef;
            pub fn LLVMCountParams(f: LLVMValueRef) -> c_uint;
            pub fn LLVMGetParams(f: LLVMValueRef, out: *mut LLVMValueRef);
            pub fn LLVMCountBasicBlocks(f: LLVMValueRef) -> c_uint;
            pub fn LLVMGetAttributeCountAtIndex(f: LLVMValueRef, i: c_uint) -> c_uint;
            pub fn LLVMGetAttributesAtIndex(f: LLVMValueRef, i: c_uint, out: *mut LLVMAttributeRef);
            pub fn LLVMGetStringAttributeAtIndex(f: LLVMValueRef, i: c_uint, k: *const c_char, len: c_uint) -> LLVMAttributeRef;
            pub fn LLVMGetStringAttributeKind(a: LLVMAttributeRef, len: *mut c_uint) -> *const c_char;
            pub fn LLVMGetStringAttributeValue(a: LLVMAttributeRef, len: *mut c_uint) -> *const c_char;
            pub fn LLVMIsStringAttribute(a: LLVMAttributeRef) -> LLVMBool;
        }
    }
    pub mod ir_reader {
        use super::*;
        extern "C" {
            pub fn LLVMParseIRInContext(c: LLVMContextRef, b: LLVMMemoryBufferRef, out: *mut LLVMModuleRef, msg: *mut *mut c_char) -> LLVMBool;
        }
    }
    extern "C" {
        pub fn LLVMParseBitcodeInContext(c: LLVMContextRef, b: LLVMMemoryBufferRef, out: *mut LLVMModuleRef, msg: *mut *mut c_char) -> LLVMBool;
        pub fn LLVMVerifyModule(m: LLVMModuleRef, action: c_int, msg: *mut *mut c_char) -> LLVMBool;
        pub fn LLVMRunPasses(m: LLVMModuleRef, passes: *const c_char, tm: LLVMTargetMachineRef, o: LLVMPassBuilderOptionsRef) -> LLVMErrorRef;
        pub fn LLVMGetErrorMessage(e: LLVMErrorRef) -> *mut c_char;
        pub fn LLVMDisposeErrorMessage(m: *mut c_char);
        pub fn LLVMCreatePassBuilderOptions() -> LLVMPassBuilderOptionsRef;
        pub fn LLVMDisposePassBuilderOptions(o: LLVMPassBuilderOptionsRef);
        pub fn LLVMLinkInMCJIT();
        pub fn LLVMCreateJITCompilerForModule(out: *mut LLVMExecutionEngineRef, m: LLVMModuleRef, opt: c_uint, msg: *mut *mut c_char) -> LLVMBool;
        pub fn LLVMDisposeExecutionEngine(e: LLVMExecutionEngineRef);
        pub fn LLVMAddGlobalMapping(e: LLVMExecutionEngineRef, v: LLVMValueRef, addr: *mut c_void);
        pub fn LLVMRunFunction(e: LLVMExecutionEngineRef, f: LLVMValueRef, n: c_uint, args: *mut LLVMGenericValueRef) -> LLVMGenericValueRef;
        pub fn LLVMDisposeGenericValue(g: LLVMGenericValueRef);
        pub fn LLVMGetTargetFromTriple(t: *const c_char, out: *mut LLVMTargetRef, msg: *mut *mut c_char) -> LLVMBool;
        pub fn LLVMTargetHasAsmBackend(t: LLVMTargetRef) -> LLVMBool;
        pub fn LLVMTargetHasTargetMachine(t: LLVMTargetRef) -> LLVMBool;
        pub fn LLVMCreateTargetMachine(
            t: LLVMTargetRef, triple: *const c_char, cpu: *const c_char, features: *const c_char, opt: c_int, reloc: c_int, model: c_int,
        ) -> LLVMTargetMachineRef;
        pub fn LLVMDisposeTargetMachine(t: LLVMTargetMachineRef);
        pub fn LLVMGetDefaultTargetTriple() -> *mut c_char;
        pub fn LLVMLoadLibraryPermanently(f: *const c_char) -> LLVMBool;
        pub fn LLVMInitializeX86TargetInfo();
        pub fn LLVMInitializeX86Target();
        pub fn LLVMInitializeX86TargetMC();
        pub fn LLVMInitializeX86AsmPrinter();
        pub fn LLVMInitializeX86AsmParser();
        pub fn LLVMInitializeX86Disassembler();
    }
}

use llvm_sys::core::*;
use llvm_sys::*;
use std::ffi::{c_char, CStr, CString};
use std::fmt;

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct LLVMString(String);
impl LLVMString {
    fn take(p: *mut c_char) -> Self {
        if p.is_null() {
            return LLVMString(String::new());
        }
        let s = unsafe { CStr::from_ptr(p) }.to_string_lossy().into_owned();
        unsafe { LLVMDisposeMessage(p) };
        LLVMString(s)
    }
    pub fn to_string(&self) -> String {
        self.0.clone()
    }
}
impl fmt::Display for LLVMString {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for LLVMString {}

#[repr(u32)]
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum OptimizationLevel {
    None = 0,
    Less = 1,
    Default = 2,
    Aggressive = 3,
}

pub mod context {
    use super::*;
    use crate::{memory_buffer::MemoryBuffer, module::Module};
    pub struct Context(pub(crate) LLVMContextRef);
    impl Context {
        pub fn create() -> Self {
            Context(unsafe { LLVMContextCreate() })
        }
        pub fn create_module_from_ir(&self, b: MemoryBuffer) -> Result<Module<'_>, LLVMString> {
            let mut m = std::ptr::null_mut();
            let mut e = std::ptr::null_mut();
            let code = unsafe { ir_reader::LLVMParseIRInContext(self.0, b.0, &mut m, &mut e) };
            std::mem::forget(b); // ownership passes to LLVM
            if code == 0 { Ok(Module::new(m)) } else { Err(LLVMString::take(e)) }
        }
        pub fn raw(&self) -> LLVMContextRef {
            self.0
        }
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct ContextRef<'ctx>(pub(crate) LLVMContextRef, pub(crate) std::marker::PhantomData<&'ctx ()>);
    macro_rules! types { ($($f:ident $t:ident $l:ident)*) => {
        impl Context { $( pub fn $f(&self) -> crate::types::$t<'_> { crate::types::$t(unsafe { $l(self.0) }, std::marker::PhantomData) } )* }
        impl<'ctx> ContextRef<'ctx> { $( pub fn $f(&self) -> crate::types::$t<'ctx> { crate::types::$t(unsafe { $l(self.0) }, std::marker::PhantomData) } )* }
    } }
    types! { f32_type FloatType LLVMFloatTypeInContext f64_type FloatType LLVMDoubleTypeInContext bool_type IntType LLVMInt1TypeInContext
        i32_type IntType LLVMInt32TypeInContext i64_type IntType LLVMInt64TypeInContext }
    impl Drop for Context {
        fn drop(&mut self) {
            unsafe { LLVMContextDispose(self.0) }
        }
    }
}

pub mod memory_buffer {
    use super::*;
    use std::path::Path;
    pub struct MemoryBuffer(pub(crate) LLVMMemoryBufferRef);
    impl MemoryBuffer {
        pub fn create_from_memory_range(input: &[u8], name: &str) -> Self {
            let n = CString::new(name).unwrap();
            MemoryBuffer(unsafe { LLVMCreateMemoryBufferWithMemoryRange(input.as_ptr().cast(), input.len(), n.as_ptr(), 0) })
        }
        pub fn create_from_memory_range_copy(input: &[u8], name: &str) -> Self {
            let n = CString::new(name).unwrap();
            MemoryBuffer(unsafe { LLVMCreateMemoryBufferWithMemoryRangeCopy(input.as_ptr().cast(), input.len(), n.as_ptr()) })
        }
        pub fn as_slice(&self) -> &[u8] {
            unsafe { std::slice::from_raw_parts(LLVMGetBufferStart(self.0).cast(), self.get_size()) }
        }
        pub fn get_size(&self) -> usize {
            unsafe { LLVMGetBufferSize(self.0) }
        }
        pub fn create_from_file(path: &Path) -> Result<Self, LLVMString> {
            let p = CString::new(path.to_str().expect("a path in UTF-8")).unwrap();
            let mut b = std::ptr::null_mut();
            let mut e = std::ptr::null_mut();
            if unsafe { LLVMCreateMemoryBufferWithContentsOfFile(p.as_ptr(), &mut b, &mut e) } == 0 { Ok(MemoryBuffer(b)) } else { Err(LLVMString::take(e)) }
        }
    }
    impl Drop for MemoryBuffer {
        fn drop(&mut self) {
            unsafe { LLVMDisposeMemoryBuffer(self.0) }
        }
    }
}

pub mod execution_engine {
    use super::*;
    use crate::values::FunctionValue;
    use std::marker::PhantomData;
    use std::rc::Rc;
    pub(crate) struct Inner(pub(crate) LLVMExecutionEngineRef);
    impl Drop for Inner {
        fn drop(&mut self) {
            unsafe { LLVMDisposeExecutionEngine(self.0) }
        }
    }
    #[derive(Clone)]
    pub struct ExecutionEngine<'ctx>(pub(crate) Rc<Inner>, pub(crate) PhantomData<&'ctx ()>);
    pub struct GenericValue<'ctx>(LLVMGenericValueRef, PhantomData<&'ctx ()>);
    impl Drop for GenericValue<'_> {
        fn drop(&mut self) {
            unsafe { LLVMDisposeGenericValue(self.0) }
        }
    }
    impl<'ctx> ExecutionEngine<'ctx> {
        pub fn add_global_mapping(&self, v: &FunctionValue<'ctx>, addr: usize) {
            unsafe { LLVMAddGlobalMapping(self.0 .0, v.0, addr as *mut _) }
        }
        pub unsafe fn run_function(&self, f: FunctionValue<'ctx>, args: &[&GenericValue<'ctx>]) -> GenericValue<'ctx> {
            let mut a: Vec<LLVMGenericValueRef> = args.iter().map(|g| g.0).collect();
            GenericValue(LLVMRunFunction(self.0 .0, f.0, a.len() as u32, a.as_mut_ptr()), PhantomData)
        }
    }
}

pub mod module {
    use super::*;
    use crate::{
        context::Context,
        execution_engine::{ExecutionEngine, Inner},
        memory_buffer::MemoryBuffer,
        passes::PassBuilderOptions,
        targets::TargetMachine,
        values::FunctionValue,
    };
    use std::cell::RefCell;
    use std::marker::PhantomData;
    use std::path::Path;
    use std::rc::Rc;
    pub struct Module<'ctx> {
        m: LLVMModuleRef,
        // an engine owns the module it was created for
        owner: RefCell<Option<ExecutionEngine<'ctx>>>,
    }
    impl<'ctx> Module<'ctx> {
        pub(crate) fn new(m: LLVMModuleRef) -> Self {
            Module { m, owner: RefCell::new(None) }
        }
        pub fn parse_bitcode_from_path(path: impl AsRef<Path>, context: &'ctx Context) -> Result<Self, LLVMString> {
            let b = MemoryBuffer::create_from_file(path.as_ref())?;
            let mut m = std::ptr::null_mut();
            let mut e = std::ptr::null_mut();
            // does not take ownership of the buffer
            if unsafe { LLVMParseBitcodeInContext(context.0, b.0, &mut m, &mut e) } == 0 { Ok(Module::new(m)) } else { Err(LLVMString::take(e)) }
        }
        pub fn verify(&self) -> Result<(), LLVMString> {
            let mut e = std::ptr::null_mut();
            // 2: return the status
            let code = unsafe { LLVMVerifyModule(self.m, 2, &mut e) };
            let s = LLVMString::take(e);
            if code == 1 { Err(s) } else { Ok(()) }
        }
        pub fn run_passes(&self, passes: &str, tm: &TargetMachine, o: PassBuilderOptions) -> Result<(), LLVMString> {
            let p = CString::new(passes).unwrap();
            let e = unsafe { LLVMRunPasses(self.m, p.as_ptr(), tm.0, o.0) };
            if e.is_null() {
                return Ok(());
            }
            let m = unsafe { LLVMGetErrorMessage(e) };
            let s = unsafe { CStr::from_ptr(m) }.to_string_lossy().into_owned();
            unsafe { LLVMDisposeErrorMessage(m) };
            Err(LLVMString(s))
        }
        pub fn create_jit_execution_engine(&self, opt: OptimizationLevel) -> Result<ExecutionEngine<'ctx>, LLVMString> {
            crate::targets::Target::initialize_native(&Default::default()).map_err(LLVMString)?;
            if self.owner.borrow().is_some() {
                return Err(LLVMString("This module is already owned by an ExecutionEngine.".into()));
            }
            let mut ee = std::ptr::null_mut();
            let mut e = std::ptr::null_mut();
            unsafe { LLVMLinkInMCJIT() };
            if unsafe { LLVMCreateJITCompilerForModule(&mut ee, self.m, opt as u32, &mut e) } != 0 {
                return Err(LLVMString::take(e));
            }
            let ee = ExecutionEngine(Rc::new(Inner(ee)), PhantomData);
            *self.owner.borrow_mut() = Some(ee.clone());
            Ok(ee)
        }
        pub fn get_first_function(&self) -> Option<FunctionValue<'ctx>> {
            FunctionValue::new(unsafe { LLVMGetFirstFunction(self.m) })
        }
        pub fn get_last_function(&self) -> Option<FunctionValue<'ctx>> {
            FunctionValue::new(unsafe { LLVMGetLastFunction(self.m) })
        }
        pub fn get_functions(&self) -> FunctionIterator<'ctx> {
            FunctionIterator(self.get_first_function())
        }
        pub fn get_function(&self, name: &str) -> Option<FunctionValue<'ctx>> {
            let n = CString::new(name).ok()?;
            FunctionValue::new(unsafe { LLVMGetNamedFunction(self.m, n.as_ptr()) })
        }
        pub fn get_context(&self) -> crate::context::ContextRef<'ctx> {
            crate::context::ContextRef(unsafe { LLVMGetModuleContext(self.m) }, PhantomData)
        }
    }
    pub struct FunctionIterator<'ctx>(Option<FunctionValue<'ctx>>);
    impl<'ctx> Iterator for FunctionIterator<'ctx> {
        type Item = FunctionValue<'ctx>;
        fn next(&mut self) -> Option<Self::Item> {
            let f = self.0;
            self.0 = f.and_then(FunctionValue::get_next_function);
            f
        }
    }
    impl Drop for Module<'_> {
        fn drop(&mut self) {
            if self.owner.borrow_mut().take().is_none() {
                unsafe { LLVMDisposeModule(self.m) }
            }
        }
    }
}

pub mod passes {
    use super::*;
    pub struct PassManager;
    pub struct PassBuilderOptions(pub(crate) LLVMPassBuilderOptionsRef);
    impl PassBuilderOptions {
        pub fn create() -> Self {
            PassBuilderOptions(unsafe { LLVMCreatePassBuilderOptions() })
        }
    }
    impl Drop for PassBuilderOptions {
        fn drop(&mut self) {
            unsafe { LLVMDisposePassBuilderOptions(self.0) }
        }
    }
}

pub mod attributes {
    use super::*;
    use std::marker::PhantomData;
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum AttributeLoc {
        Return,
        Param(u32),
        Function,
    }
    impl AttributeLoc {
        pub(crate) fn index(self) -> u32 {
            match self {
                AttributeLoc::Return => 0,
                AttributeLoc::Param(i) => i + 1,
                AttributeLoc::Function => u32::MAX,
            }
        }
    }
    #[derive(Clone, Copy, Debug)]
    pub struct Attribute<'a>(pub(crate) LLVMAttributeRef, pub(crate) PhantomData<&'a ()>);
    impl Attribute<'_> {
        pub fn is_string(&self) -> bool {
            unsafe { LLVMIsStringAttribute(self.0) == 1 }
        }
        pub fn is_enum(&self) -> bool {
            !self.is_string()
        }
        pub fn get_string_kind_id(&self) -> &CStr {
            assert!(self.is_string());
            let mut n = 0;
            unsafe { CStr::from_ptr(LLVMGetStringAttributeKind(self.0, &mut n)) }
        }
        pub fn get_string_value(&self) -> &CStr {
            assert!(self.is_string());
            let mut n = 0;
            unsafe { CStr::from_ptr(LLVMGetStringAttributeValue(self.0, &mut n)) }
        }
    }
}

pub mod values {
    use super::*;
    use crate::attributes::{Attribute, AttributeLoc};
    use std::marker::PhantomData;
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
    pub struct FunctionValue<'ctx>(pub(crate) LLVMValueRef, PhantomData<&'ctx ()>);
    #[derive(Clone, Copy, Debug)]
    pub struct BasicValueEnum<'ctx>(#[allow(dead_code)] LLVMValueRef, PhantomData<&'ctx ()>);
    impl<'ctx> FunctionValue<'ctx> {
        pub(crate) fn new(v: LLVMValueRef) -> Option<Self> {
            if v.is_null() { None } else { Some(FunctionValue(v, PhantomData)) }
        }
        pub fn get_next_function(self) -> Option<Self> {
            FunctionValue::new(unsafe { LLVMGetNextFunction(self.0) })
        }
        pub fn get_name(&self) -> &CStr {
            let mut n = 0;
            unsafe { CStr::from_ptr(LLVMGetValueName2(self.0, &mut n)) }
        }
        pub fn get_previous_function(self) -> Option<Self> {
            FunctionValue::new(unsafe { LLVMGetPreviousFunction(self.0) })
        }
        pub fn get_type(self) -> crate::types::FunctionType<'ctx> {
            crate::types::FunctionType(unsafe { LLVMGlobalGetValueType(self.0) }, PhantomData)
        }
        pub fn get_nth_param(self, n: u32) -> Option<BasicValueEnum<'ctx>> {
            if n < self.count_params() { Some(BasicValueEnum(unsafe { LLVMGetParam(self.0, n) }, PhantomData)) } else { None }
        }
        pub fn get_first_param(self) -> Option<BasicValueEnum<'ctx>> {
            self.get_nth_param(0)
        }
        pub fn get_param_iter(self) -> std::vec::IntoIter<BasicValueEnum<'ctx>> {
            self.get_params().into_iter()
        }
        pub fn count_params(self) -> u32 {
            unsafe { LLVMCountParams(self.0) }
        }
        pub fn get_params(self) -> Vec<BasicValueEnum<'ctx>> {
            let mut v = vec![std::ptr::null_mut(); self.count_params() as usize];
            unsafe { LLVMGetParams(self.0, v.as_mut_ptr()) };
            v.into_iter().map(|p| BasicValueEnum(p, PhantomData)).collect()
        }
        pub fn count_basic_blocks(self) -> u32 {
            unsafe { LLVMCountBasicBlocks(self.0) }
        }
        pub fn attributes(self, loc: AttributeLoc) -> Vec<Attribute<'ctx>> {
            let n = unsafe { LLVMGetAttributeCountAtIndex(self.0, loc.index()) };
            let mut v = vec![std::ptr::null_mut(); n as usize];
            unsafe { LLVMGetAttributesAtIndex(self.0, loc.index(), v.as_mut_ptr()) };
            v.into_iter().map(|p| Attribute(p, PhantomData)).collect()
        }
        pub fn get_string_attribute(self, loc: AttributeLoc, key: &str) -> Option<Attribute<'ctx>> {
            let p = unsafe { LLVMGetStringAttributeAtIndex(self.0, loc.index(), key.as_ptr().cast(), key.len() as u32) };
            if p.is_null() { None } else { Some(Attribute(p, PhantomData)) }
        }
    }
}

pub mod types {
    use super::*;
    use std::marker::PhantomData;
    macro_rules! kinds { ($($n:ident)*) => { $( #[derive(Clone, Copy, Debug, PartialEq, Eq)] pub struct $n<'ctx>(pub(crate) LLVMTypeRef, pub(crate) PhantomData<&'ctx ()>); )* } }
    kinds! { FunctionType ArrayType FloatType IntType PointerType StructType VectorType ScalableVectorType }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum BasicTypeEnum<'ctx> {
        ArrayType(ArrayType<'ctx>),
        FloatType(FloatType<'ctx>),
        IntType(IntType<'ctx>),
        PointerType(PointerType<'ctx>),
        StructType(StructType<'ctx>),
        VectorType(VectorType<'ctx>),
        ScalableVectorType(ScalableVectorType<'ctx>),
    }
    impl IntType<'_> {
        pub fn get_bit_width(self) -> u32 {
            unsafe { LLVMGetIntTypeWidth(self.0) }
        }
    }
    impl<'ctx> FunctionType<'ctx> {
        pub fn get_return_type(self) -> Option<BasicTypeEnum<'ctx>> {
            let t = unsafe { LLVMGetReturnType(self.0) };
            let p = PhantomData;
            Some(match unsafe { LLVMGetTypeKind(t) } {
                0 => return None,
                1..=6 | 18 => BasicTypeEnum::FloatType(FloatType(t, p)),
                8 => BasicTypeEnum::IntType(IntType(t, p)),
                10 => BasicTypeEnum::StructType(StructType(t, p)),
                11 => BasicTypeEnum::ArrayType(ArrayType(t, p)),
                12 => BasicTypeEnum::PointerType(PointerType(t, p)),
                13 => BasicTypeEnum::VectorType(VectorType(t, p)),
                17 => BasicTypeEnum::ScalableVectorType(ScalableVectorType(t, p)),
                k => unreachable!("type kind {k}"),
            })
        }
        pub fn count_param_types(self) -> u32 {
            unsafe { LLVMCountParamTypes(self.0) }
        }
        pub fn is_var_arg(self) -> bool {
            unsafe { LLVMIsFunctionVarArg(self.0) != 0 }
        }
        pub fn get_context(self) -> crate::context::ContextRef<'ctx> {
            crate::context::ContextRef(unsafe { LLVMGetTypeContext(self.0) }, PhantomData)
        }
    }
    macro_rules! is_into { ($($is:ident $into:ident $n:ident)*) => { impl<'ctx> BasicTypeEnum<'ctx> { $(
        pub fn $is(self) -> bool { matches!(self, BasicTypeEnum::$n(_)) }
        pub fn $into(self) -> $n<'ctx> { if let BasicTypeEnum::$n(t) = self { t } else { panic!("Found {self:?} but expected another variant") } }
    )* } } }
    is_into! { is_array_type into_array_type ArrayType is_float_type into_float_type FloatType is_int_type into_int_type IntType
        is_pointer_type into_pointer_type PointerType is_struct_type into_struct_type StructType is_vector_type into_vector_type VectorType
        is_scalable_vector_type into_scalable_vector_type ScalableVectorType }
}

pub mod targets {
    use super::*;
    #[derive(Default)]
    pub struct InitializationConfig {}
    #[derive(Clone, Copy)]
    pub enum RelocMode {
        Default = 0,
        Static = 1,
        PIC = 2,
        DynamicNoPic = 3,
    }
    #[derive(Clone, Copy)]
    pub enum CodeModel {
        Default = 0,
        JITDefault = 1,
        Small = 3,
        Kernel = 4,
        Medium = 5,
        Large = 6,
    }
    pub struct TargetTriple(pub(crate) CString);
    pub struct Target(LLVMTargetRef);
    pub struct TargetMachine(pub(crate) LLVMTargetMachineRef);
    impl Drop for TargetMachine {
        fn drop(&mut self) {
            unsafe { LLVMDisposeTargetMachine(self.0) }
        }
    }
    impl Target {
        pub fn initialize_native(_: &InitializationConfig) -> Result<(), String> {
            static ONCE: std::sync::Once = std::sync::Once::new();
            ONCE.call_once(|| unsafe {
                LLVMInitializeX86TargetInfo();
                LLVMInitializeX86Target();
                LLVMInitializeX86TargetMC();
                LLVMInitializeX86AsmPrinter();
                LLVMInitializeX86AsmParser();
                LLVMInitializeX86Disassembler();
            });
            Ok(())
        }
        pub fn from_triple(t: &TargetTriple) -> Result<Self, LLVMString> {
            let mut p = std::ptr::null_mut();
            let mut e = std::ptr::null_mut();
            if unsafe { LLVMGetTargetFromTriple(t.0.as_ptr(), &mut p, &mut e) } == 0 { Ok(Target(p)) } else { Err(LLVMString::take(e)) }
        }
        pub fn has_asm_backend(&self) -> bool {
            unsafe { LLVMTargetHasAsmBackend(self.0) == 1 }
        }
        pub fn has_target_machine(&self) -> bool {
            unsafe { LLVMTargetHasTargetMachine(self.0) == 1 }
        }
        pub fn create_target_machine(
            &self, t: &TargetTriple, cpu: &str, features: &str, opt: OptimizationLevel, reloc: RelocMode, model: CodeModel,
        ) -> Option<TargetMachine> {
            let (c, f) = (CString::new(cpu).unwrap(), CString::new(features).unwrap());
            let p = unsafe { LLVMCreateTargetMachine(self.0, t.0.as_ptr(), c.as_ptr(), f.as_ptr(), opt as i32, reloc as i32, model as i32) };
            if p.is_null() { None } else { Some(TargetMachine(p)) }
        }
    }
    impl TargetMachine {
        pub fn get_default_triple() -> TargetTriple {
            let p = unsafe { LLVMGetDefaultTargetTriple() };
            let s = unsafe { CStr::from_ptr(p) }.to_owned();
            unsafe { LLVMDisposeMessage(p) };
            TargetTriple(s)
        }
    }
}

pub mod support {
    use super::*;
    use std::path::Path;
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum LoadLibraryError {
        UnicodeError,
        LoadingError,
    }
    pub fn load_library_permanently(path: &Path) -> Result<(), LoadLibraryError> {
        let p = CString::new(path.to_str().ok_or(LoadLibraryError::UnicodeError)?).unwrap();
        if unsafe { LLVMLoadLibraryPermanently(p.as_ptr()) } == 1 { Err(LoadLibraryError::LoadingError) } else { Ok(()) }
    }
}
