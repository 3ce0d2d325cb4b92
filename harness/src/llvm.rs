//! What LLVM's numbers mean, written down independently of the code under test (from
//! `LLVMBitCodes.h`, `CallingConv.h` and `BitcodeReader.cpp`).

use std::fmt::Debug;

pub const CHAR6: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789._";

/// Whether the entity is the one with this name. (Going by names keeps the tables independent of
/// the code under test: they can still be compiled when it has lost an entity.)
pub fn is(got: &impl Debug, want: &str) -> bool {
    format!("{got:?}") == want
}

/// Functions from numbers to the names of the entities that they identify.
macro_rules! numbers {
    ($(#[$m:meta])* $f:ident: $($v:ident = $n:literal),* $(,)?) => {
        $(#[$m])*
        pub fn $f(n: u64) -> Option<&'static str> {
            Some(match n {
                $($n => stringify!($v),)*
                _ => return None,
            })
        }
    };
}

numbers! {
    reserved_block:
    BlockInfo = 0, Reserved1 = 1, Reserved2 = 2, Reserved3 = 3, Reserved4 = 4, Reserved5 = 5,
    Reserved6 = 6, Reserved7 = 7,
}
numbers! {
    ir_block:
    Module = 8, ParamAttr = 9, ParamAttrGroup = 10, Constants = 11, Function = 12,
    Identification = 13, ValueSymtab = 14, Metadata = 15, MetadataAttachment = 16, Type = 17,
    Uselist = 18, ModuleStrtab = 19, GlobalValSummary = 20, OperandBundleTags = 21,
    MetadataKind = 22, Strtab = 23, FullLtoGlobalValSummary = 24, Symtab = 25,
    SyncScopeNames = 26,
}
numbers! {
    reserved_abbrev:
    EndBlock = 0, EnterSubBlock = 1, DefineAbbrev = 2, UnabbrevRecord = 3,
}
numbers! {
    abbrev_op:
    Fixed = 1, Vbr = 2, Array = 3, Char6 = 4, Blob = 5,
}
numbers! {
    block_info_code:
    SetBid = 1, BlockName = 2, SetRecordName = 3,
}
numbers! {
    identification_code:
    ProducerString = 1, Epoch = 2,
}
numbers! {
    module_code:
    Version = 1, Triple = 2, DataLayout = 3, Asm = 4, SectionName = 5, DepLib = 6,
    GlobalVar = 7, Function = 8, AliasOld = 9, GcName = 11, Comdat = 12, VstOffset = 13,
    Alias = 14, MetadataValuesUnused = 15, SourceFilename = 16, Hash = 17, IFunc = 18,
}
numbers! {
    type_code:
    NumEntry = 1, Void = 2, Float = 3, Double = 4, Label = 5, Opaque = 6, Integer = 7,
    Pointer = 8, FunctionOld = 9, Half = 10, Array = 11, Vector = 12, X86Fp80 = 13, Fp128 = 14,
    PpcFp128 = 15, Metadata = 16, X86Mmx = 17, StructAnon = 18, StructName = 19,
    StructNamed = 20, Function = 21, Token = 22, BFloat = 23, X86Amx = 24, OpaquePointer = 25,
}
numbers! {
    strtab_code:
    Blob = 1,
}
numbers! {
    symtab_code:
    Blob = 1,
}
numbers! {
    attribute_code:
    EntryOld = 1, Entry = 2, GroupCodeEntry = 3,
}
numbers! {
    function_code:
    DeclareBlocks = 1, InstBinop = 2, InstCast = 3, InstGepOld = 4, InstSelect = 5,
    InstExtractelt = 6, InstInsertelt = 7, InstShufflevec = 8, InstCmp = 9, InstRet = 10, InstBr
    = 11, InstSwitch = 12, InstInvoke = 13, InstUnreachable = 15, InstPhi = 16, InstAlloca = 19,
    InstLoad = 20, InstVaarg = 23, InstStoreOld = 24, InstExtractval = 26, InstInsertval = 27,
    InstCmp2 = 28, InstVselect = 29, InstInboundsGepOld = 30, InstIndirectbr = 31, DebugLocAgain
    = 33, InstCall = 34, DebugLoc = 35, InstFence = 36, InstCmpxchgOld = 37, InstAtomicrmwOld =
    38, InstResume = 39, InstLandingpadOld = 40, InstLoadatomic = 41, InstStoreatomicOld = 42,
    InstGep = 43, InstStore = 44, InstStoreatomic = 45, InstCmpxchg = 46, InstLandingpad = 47,
    InstCleanupret = 48, InstCatchret = 49, InstCatchpad = 50, InstCleanuppad = 51,
    InstCatchswitch = 52, OperandBundle = 55, InstUnop = 56, Instcallbr = 57, InstFreeze = 58,
    InstAtomicrmw = 59,
}
numbers! {
    unary_opcode:
    FNeg = 0,
}
numbers! {
    binary_opcode:
    Add = 0, Sub = 1, Mul = 2, UDiv = 3, SDiv = 4, URem = 5, SRem = 6, Shl = 7, LShr = 8,
    AShr = 9, And = 10, Or = 11, Xor = 12,
}
numbers! {
    rmw_operation:
    Xchg = 0, Add = 1, Sub = 2, And = 3, Nand = 4, Or = 5, Xor = 6, Max = 7, Min = 8, UMax = 9,
    UMin = 10, FAdd = 11, FSub = 12,
}
numbers! {
    visibility:
    Default = 0, Hidden = 1, Protected = 2,
}
numbers! {
    dll_storage_class:
    Default = 0, Import = 1, Export = 2,
}
numbers! {
    thread_local_mode:
    NotThreadLocal = 0, GeneralDynamicTls = 1, LocalDynamicTls = 2, InitialExecTls = 3,
    LocalExecTls = 4,
}
numbers! {
    unnamed_addr:
    None = 0, Global = 1, Local = 2,
}
numbers! {
    preemption:
    DsoPreemptable = 0, DsoLocal = 1,
}
numbers! {
    attribute_kind:
    Enum = 0, IntKeyValue = 1, StrKey = 3, StrKeyValue = 4,
}
numbers! {
    calling_convention:
    C = 0, Fast = 8, Cold = 9, GHC = 10, HiPE = 11, WebKitJS = 12, AnyReg = 13, PreserveMost =
    14, PreserveAll = 15, Swift = 16, CXXFASTTLS = 17, X86Stdcall = 64, X86Fastcall = 65,
    ARMAPCS = 66, ARMAAPCS = 67, ARMAAPCSVFP = 68, MSP430INTR = 69, X86ThisCall = 70, PTXKernel
    = 71, PTXDevice = 72, SPIRFUNC = 75, SPIRKERNEL = 76, IntelOCLBI = 77, X8664SysV = 78, Win64
    = 79, X86VectorCall = 80, HHVM = 81, HHVMC = 82, X86INTR = 83, AVRINTR = 84, AVRSIGNAL = 85,
    AVRBUILTIN = 86, AMDGPUVS = 87, AMDGPUGS = 88, AMDGPUPS = 89, AMDGPUCS = 90, AMDGPUKERNEL =
    91, X86RegCall = 92, AMDGPUHS = 93, MSP430BUILTIN = 94, AMDGPULS = 95, AMDGPUES = 96,
}
numbers! {
    attribute_id:
    Alignment = 1, AlwaysInline = 2, ByVal = 3, InlineHint = 4, InReg = 5, MinSize = 6, Naked =
    7, Nest = 8, NoAlias = 9, NoBuiltin = 10, NoCapture = 11, NoDuplicate = 12, NoImplicitFloat
    = 13, NoInline = 14, NonLazyBind = 15, NoRedZone = 16, NoReturn = 17, NoUnwind = 18,
    OptimizeForSize = 19, ReadNone = 20, ReadOnly = 21, Returned = 22, ReturnsTwice = 23, SExt =
    24, StackAlignment = 25, StackProtect = 26, StackProtectReq = 27, StackProtectStrong = 28,
    StructRet = 29, SanitizeAddress = 30, SanitizeThread = 31, SanitizeMemory = 32, UwTable =
    33, ZExt = 34, Builtin = 35, Cold = 36, OptimizeNone = 37, InAlloca = 38, NonNull = 39,
    JumpTable = 40, Dereferenceable = 41, DereferenceableOrNull = 42, Convergent = 43, SafeStack
    = 44, ArgMemOnly = 45, SwiftSelf = 46, SwiftError = 47, NoRecurse = 48, InaccessiblememOnly
    = 49, InaccessiblememOrArgmemonly = 50, AllocSize = 51, WriteOnly = 52, Speculatable = 53,
    StrictFp = 54, SanitizeHwAddress = 55, NoCfCheck = 56, OptForFuzzing = 57, Shadowcallstack =
    58, SpeculativeLoadHardening = 59, ImmArg = 60, WillReturn = 61, NoFree = 62, NoSync = 63,
    SanitizeMemtag = 64, Preallocated = 65, NoMerge = 66, NullPointerIsValid = 67, NoUndef = 68,
    ByRef = 69, MustProgress = 70, NoCallback = 71, Hot = 72, NoProfile = 73, VScaleRange = 74,
    SwiftAsync = 75, NoSanitizeCoverage = 76, ElementType = 77, DisableSanitizerInstrumentation
    = 78, NoSanitizeBounds = 79, AllocAlign = 80, AllocatedPointer = 81, AllocKind = 82,
    PresplitCoroutine = 83, FnretthunkExtern = 84, SkipProfile = 85, Memory = 86,
}
numbers! {
    /// Attributes that don't (or don't have to) carry a value.
    enum_attribute:
    AlwaysInline = 2, ByVal = 3, InlineHint = 4, InReg = 5, MinSize = 6, Naked = 7, Nest = 8,
    NoAlias = 9, NoBuiltin = 10, NoCapture = 11, NoDuplicate = 12, NoImplicitFloat = 13,
    NoInline = 14, NonLazyBind = 15, NoRedZone = 16, NoReturn = 17, NoUnwind = 18,
    OptimizeForSize = 19, ReadNone = 20, ReadOnly = 21, Returned = 22, ReturnsTwice = 23, SExt =
    24, StackProtect = 26, StackProtectReq = 27, StackProtectStrong = 28, StructRet = 29,
    SanitizeAddress = 30, SanitizeThread = 31, SanitizeMemory = 32, UwTable = 33, ZExt = 34,
    Builtin = 35, Cold = 36, OptimizeNone = 37, InAlloca = 38, NonNull = 39, JumpTable = 40,
    Convergent = 43, SafeStack = 44, ArgMemOnly = 45, SwiftSelf = 46, SwiftError = 47, NoRecurse
    = 48, InaccessiblememOnly = 49, InaccessiblememOrArgmemonly = 50, WriteOnly = 52,
    Speculatable = 53, StrictFp = 54, SanitizeHwAddress = 55, NoCfCheck = 56, OptForFuzzing =
    57, Shadowcallstack = 58, SpeculativeLoadHardening = 59, ImmArg = 60, WillReturn = 61,
    NoFree = 62, NoSync = 63, SanitizeMemtag = 64, Preallocated = 65, NoMerge = 66,
    NullPointerIsValid = 67, NoUndef = 68, ByRef = 69, MustProgress = 70, NoCallback = 71, Hot =
    72, NoProfile = 73, SwiftAsync = 75, NoSanitizeCoverage = 76, ElementType = 77,
    DisableSanitizerInstrumentation = 78, NoSanitizeBounds = 79, AllocAlign = 80,
    AllocatedPointer = 81, PresplitCoroutine = 83, FnretthunkExtern = 84, SkipProfile = 85,
}

/// `getDecodedLinkage`.
pub fn linkage(n: u64) -> &'static str {
    match n {
        1 | 16 => "WeakAny",
        2 => "Appending",
        3 => "Internal",
        4 | 18 => "LinkOnceAny",
        7 => "ExternalWeak",
        8 => "Common",
        9 | 13 | 14 => "Private",
        10 | 17 => "WeakOdr",
        11 | 19 => "LinkOnceOdr",
        12 => "AvailableExternally",
        // 5 and 6 are dllimport and dllexport, 15 is external weak's old "linkonce_odr_auto_hide".
        _ => "External",
    }
}

/// Numbers that LLVM 18 assigns, but which are beyond what the code under test supports: they
/// must not decode to something else, but may be refused.
pub fn newer_calling_convention(n: u64) -> bool {
    matches!(n, 18..=20 | 97..=109)
}
pub fn newer_attribute_id(n: u64) -> bool {
    matches!(n, 87..=91)
}

// Attribute ids that always carry an integer.
pub const ALIGNMENT: u64 = 1;
pub const STACK_ALIGNMENT: u64 = 25;
pub const UW_TABLE: u64 = 33;
pub const DEREFERENCEABLE: u64 = 41;
pub const DEREFERENCEABLE_OR_NULL: u64 = 42;
pub const ALLOC_SIZE: u64 = 51;
pub const VSCALE_RANGE: u64 = 74;
pub const ALLOC_KIND: u64 = 82;
pub const MEMORY: u64 = 86;
pub const INT_ONLY: &[u64] = &[
    ALIGNMENT,
    STACK_ALIGNMENT,
    DEREFERENCEABLE,
    DEREFERENCEABLE_OR_NULL,
    ALLOC_SIZE,
    VSCALE_RANGE,
    ALLOC_KIND,
    MEMORY,
];
