@@source llvm-support/src/lib.rs
@@type Visibility
@@enumtry Visibility
    ensures r.is_ok() == known_visibility(vx_p), r matches Ok(x) ==> code_visibility(x) == vx_p
@@verbatim
pub open spec fn code_visibility(x: Visibility) -> int {
    match x {
        Visibility::Default => 0,
        Visibility::Hidden => 1,
        Visibility::Protected => 2,
        _ => -1,
    }
}
pub open spec fn known_visibility(c: u64) -> bool {
    0 <= c <= 2
}
@@end
@@type DllStorageClass
@@enumtry DllStorageClass
    ensures r.is_ok() == known_dll_storage_class(vx_p), r matches Ok(x) ==> code_dll_storage_class(x) == vx_p
@@verbatim
pub open spec fn code_dll_storage_class(x: DllStorageClass) -> int {
    match x {
        DllStorageClass::Default => 0,
        DllStorageClass::Import => 1,
        DllStorageClass::Export => 2,
        _ => -1,
    }
}
pub open spec fn known_dll_storage_class(c: u64) -> bool {
    0 <= c <= 2
}
@@end
@@type CallingConvention
@@enumtry CallingConvention
    ensures r.is_ok() == known_calling_convention(vx_p), r matches Ok(x) ==> code_calling_convention(x) == vx_p
@@verbatim
pub open spec fn code_calling_convention(x: CallingConvention) -> int {
    match x {
        CallingConvention::C => 0,
        CallingConvention::Fast => 8,
        CallingConvention::Cold => 9,
        CallingConvention::GHC => 10,
        CallingConvention::HiPE => 11,
        CallingConvention::WebKitJS => 12,
        CallingConvention::AnyReg => 13,
        CallingConvention::PreserveMost => 14,
        CallingConvention::PreserveAll => 15,
        CallingConvention::Swift => 16,
        CallingConvention::CXXFASTTLS => 17,
        CallingConvention::X86Stdcall => 64,
        CallingConvention::X86Fastcall => 65,
        CallingConvention::ARMAPCS => 66,
        CallingConvention::ARMAAPCS => 67,
        CallingConvention::ARMAAPCSVFP => 68,
        CallingConvention::MSP430INTR => 69,
        CallingConvention::X86ThisCall => 70,
        CallingConvention::PTXKernel => 71,
        CallingConvention::PTXDevice => 72,
        CallingConvention::SPIRFUNC => 75,
        CallingConvention::SPIRKERNEL => 76,
        CallingConvention::IntelOCLBI => 77,
        CallingConvention::X8664SysV => 78,
        CallingConvention::Win64 => 79,
        CallingConvention::X86VectorCall => 80,
        CallingConvention::HHVM => 81,
        CallingConvention::HHVMC => 82,
        CallingConvention::X86INTR => 83,
        CallingConvention::AVRINTR => 84,
        CallingConvention::AVRSIGNAL => 85,
        CallingConvention::AVRBUILTIN => 86,
        CallingConvention::AMDGPUVS => 87,
        CallingConvention::AMDGPUGS => 88,
        CallingConvention::AMDGPUPS => 89,
        CallingConvention::AMDGPUCS => 90,
        CallingConvention::AMDGPUKERNEL => 91,
        CallingConvention::X86RegCall => 92,
        CallingConvention::AMDGPUHS => 93,
        CallingConvention::MSP430BUILTIN => 94,
        CallingConvention::AMDGPULS => 95,
        CallingConvention::AMDGPUES => 96,
        _ => -1,
    }
}
pub open spec fn known_calling_convention(c: u64) -> bool {
    c == 0 || 8 <= c <= 17 || 64 <= c <= 72 || 75 <= c <= 96
}
@@end
@@type Linkage
@@verbatim
pub open spec fn from_linkage(c: u64) -> Linkage {
    if c == 1 || c == 16 { Linkage::WeakAny } else if c == 2 { Linkage::Appending } else if c == 3 { Linkage::Internal } else if c == 4 || c == 18 { Linkage::LinkOnceAny } else if c == 7 { Linkage::ExternalWeak } else if c == 8 { Linkage::Common } else if c == 9 || c == 13 || c == 14 { Linkage::Private } else if c == 10 || c == 17 { Linkage::WeakOdr } else if c == 11 || c == 19 { Linkage::LinkOnceOdr } else if c == 12 { Linkage::AvailableExternally } else { Linkage::External }
}
@@end
@@fn Linkage as From<u64>::from
@@params value
@@spec
    ensures r == from_linkage(value)
@@type ThreadLocalMode
@@verbatim
pub open spec fn from_thread_local_mode(c: u64) -> ThreadLocalMode {
    if c == 0 { ThreadLocalMode::NotThreadLocal } else if c == 2 { ThreadLocalMode::LocalDynamicTls } else if c == 3 { ThreadLocalMode::InitialExecTls } else if c == 4 { ThreadLocalMode::LocalExecTls } else { ThreadLocalMode::GeneralDynamicTls }
}
@@end
@@fn ThreadLocalMode as From<u64>::from
@@params value
@@spec
    ensures r == from_thread_local_mode(value)
@@type UnnamedAddr
@@verbatim
pub open spec fn from_unnamed_addr(c: u64) -> UnnamedAddr {
    if c == 1 { UnnamedAddr::Global } else if c == 2 { UnnamedAddr::Local } else { UnnamedAddr::None }
}
@@end
@@fn UnnamedAddr as From<u64>::from
@@params value
@@spec
    ensures r == from_unnamed_addr(value)
@@type RuntimePreemption
@@verbatim
pub open spec fn from_runtime_preemption(c: u64) -> RuntimePreemption {
    if c == 1 { RuntimePreemption::DsoLocal } else { RuntimePreemption::DsoPreemptable }
}
@@end
@@fn RuntimePreemption as From<u64>::from
@@params value
@@spec
    ensures r == from_runtime_preemption(value)
