//! Written by tools/genenums.py: the meaning LLVM assigns to each code.
pub const VISIBILITY: &[(u64, &str)] = &[(0, "Default"), (1, "Hidden"), (2, "Protected")];
pub const DLL_STORAGE_CLASS: &[(u64, &str)] = &[(0, "Default"), (1, "Import"), (2, "Export")];
pub const CALLING_CONVENTION: &[(u64, &str)] = &[(0, "C"), (8, "Fast"), (9, "Cold"), (10, "GHC"), (11, "HiPE"), (12, "WebKitJS"), (13, "AnyReg"), (14, "PreserveMost"), (15, "PreserveAll"), (16, "Swift"), (17, "CXXFASTTLS"), (64, "X86Stdcall"), (65, "X86Fastcall"), (66, "ARMAPCS"), (67, "ARMAAPCS"), (68, "ARMAAPCSVFP"), (69, "MSP430INTR"), (70, "X86ThisCall"), (71, "PTXKernel"), (72, "PTXDevice"), (75, "SPIRFUNC"), (76, "SPIRKERNEL"), (77, "IntelOCLBI"), (78, "X8664SysV"), (79, "Win64"), (80, "X86VectorCall"), (81, "HHVM"), (82, "HHVMC"), (83, "X86INTR"), (84, "AVRINTR"), (85, "AVRSIGNAL"), (86, "AVRBUILTIN"), (87, "AMDGPUVS"), (88, "AMDGPUGS"), (89, "AMDGPUPS"), (90, "AMDGPUCS"), (91, "AMDGPUKERNEL"), (92, "X86RegCall"), (93, "AMDGPUHS"), (94, "MSP430BUILTIN"), (95, "AMDGPULS"), (96, "AMDGPUES")];
pub const RESERVED_BLOCK_ID: &[(u64, &str)] = &[(0, "BlockInfo"), (1, "Reserved1"), (2, "Reserved2"), (3, "Reserved3"), (4, "Reserved4"), (5, "Reserved5"), (6, "Reserved6"), (7, "Reserved7")];
pub const IR_BLOCK_ID: &[(u64, &str)] = &[(8, "Module"), (9, "ParamAttr"), (10, "ParamAttrGroup"), (11, "Constants"), (12, "Function"), (13, "Identification"), (14, "ValueSymtab"), (15, "Metadata"), (16, "MetadataAttachment"), (17, "Type"), (18, "Uselist"), (19, "ModuleStrtab"), (20, "GlobalValSummary"), (21, "OperandBundleTags"), (22, "MetadataKind"), (23, "Strtab"), (24, "FullLtoGlobalValSummary"), (25, "Symtab"), (26, "SyncScopeNames")];
pub const RESERVED_ABBREV_ID: &[(u64, &str)] = &[(0, "EndBlock"), (1, "EnterSubBlock"), (2, "DefineAbbrev"), (3, "UnabbrevRecord")];
pub const ABBREV_OP_ENC: &[(u64, &str)] = &[(1, "Fixed"), (2, "Vbr"), (3, "Array"), (4, "Char6"), (5, "Blob")];
pub const BLOCK_INFO_CODE: &[(u64, &str)] = &[(1, "SetBid"), (2, "BlockName"), (3, "SetRecordName")];
pub const IDENTIFICATION_CODE: &[(u64, &str)] = &[(1, "ProducerString"), (2, "Epoch")];
pub const MODULE_CODE: &[(u64, &str)] = &[(1, "Version"), (2, "Triple"), (3, "DataLayout"), (4, "Asm"), (5, "SectionName"), (6, "DepLib"), (7, "GlobalVar"), (8, "Function"), (9, "AliasOld"), (11, "GcName"), (12, "Comdat"), (13, "VstOffset"), (14, "Alias"), (15, "MetadataValuesUnused"), (16, "SourceFilename"), (17, "Hash"), (18, "IFunc")];
pub const STRTAB_CODE: &[(u64, &str)] = &[(1, "Blob")];
pub const SYMTAB_CODE: &[(u64, &str)] = &[(1, "Blob")];
pub const FUNCTION_CODE: &[(u64, &str)] = &[(1, "DeclareBlocks"), (2, "InstBinop"), (3, "InstCast"), (4, "InstGepOld"), (5, "InstSelect"), (6, "InstExtractelt"), (7, "InstInsertelt"), (8, "InstShufflevec"), (9, "InstCmp"), (10, "InstRet"), (11, "InstBr"), (12, "InstSwitch"), (13, "InstInvoke"), (15, "InstUnreachable"), (16, "InstPhi"), (19, "InstAlloca"), (20, "InstLoad"), (23, "InstVaarg"), (24, "InstStoreOld"), (26, "InstExtractval"), (27, "InstInsertval"), (28, "InstCmp2"), (29, "InstVselect"), (30, "InstInboundsGepOld"), (31, "InstIndirectbr"), (33, "DebugLocAgain"), (34, "InstCall"), (35, "DebugLoc"), (36, "InstFence"), (37, "InstCmpxchgOld"), (38, "InstAtomicrmwOld"), (39, "InstResume"), (40, "InstLandingpadOld"), (41, "InstLoadatomic"), (42, "InstStoreatomicOld"), (43, "InstGep"), (44, "InstStore"), (45, "InstStoreatomic"), (46, "InstCmpxchg"), (47, "InstLandingpad"), (48, "InstCleanupret"), (49, "InstCatchret"), (50, "InstCatchpad"), (51, "InstCleanuppad"), (52, "InstCatchswitch"), (55, "OperandBundle"), (56, "InstUnop"), (57, "Instcallbr"), (58, "InstFreeze"), (59, "InstAtomicrmw")];
pub const RMWOPERATION: &[(u64, &str)] = &[(0, "Xchg"), (1, "Add"), (2, "Sub"), (3, "And"), (4, "Nand"), (5, "Or"), (6, "Xor"), (7, "Max"), (8, "Min"), (9, "UMax"), (10, "UMin"), (11, "FAdd"), (12, "FSub")];
pub const TYPE_CODE: &[(u64, &str)] = &[(1, "NumEntry"), (2, "Void"), (3, "Float"), (4, "Double"), (5, "Label"), (6, "Opaque"), (7, "Integer"), (8, "Pointer"), (9, "FunctionOld"), (10, "Half"), (11, "Array"), (12, "Vector"), (13, "X86Fp80"), (14, "Fp128"), (15, "PpcFp128"), (16, "Metadata"), (17, "X86Mmx"), (18, "StructAnon"), (19, "StructName"), (20, "StructNamed"), (21, "Function"), (22, "Token"), (23, "BFloat"), (24, "X86Amx"), (25, "OpaquePointer")];
pub const ATTRIBUTE_CODE: &[(u64, &str)] = &[(1, "EntryOld"), (2, "Entry"), (3, "GroupCodeEntry")];
pub const UNARY_OPCODE: &[(u64, &str)] = &[(0, "FNeg")];
pub const BINARY_OPCODE: &[(u64, &str)] = &[(0, "Add"), (1, "Sub"), (2, "Mul"), (3, "UDiv"), (4, "SDiv"), (5, "URem"), (6, "SRem"), (7, "Shl"), (8, "LShr"), (9, "AShr"), (10, "And"), (11, "Or"), (12, "Xor")];
pub const ATTRIBUTE_KIND: &[(u64, &str)] = &[(0, "Enum"), (1, "IntKeyValue"), (3, "StrKey"), (4, "StrKeyValue")];
pub const ATTRIBUTE_ID: &[(u64, &str)] = &[(1, "Alignment"), (2, "AlwaysInline"), (3, "ByVal"), (4, "InlineHint"), (5, "InReg"), (6, "MinSize"), (7, "Naked"), (8, "Nest"), (9, "NoAlias"), (10, "NoBuiltin"), (11, "NoCapture"), (12, "NoDuplicate"), (13, "NoImplicitFloat"), (14, "NoInline"), (15, "NonLazyBind"), (16, "NoRedZone"), (17, "NoReturn"), (18, "NoUnwind"), (19, "OptimizeForSize"), (20, "ReadNone"), (21, "ReadOnly"), (22, "Returned"), (23, "ReturnsTwice"), (24, "SExt"), (25, "StackAlignment"), (26, "StackProtect"), (27, "StackProtectReq"), (28, "StackProtectStrong"), (29, "StructRet"), (30, "SanitizeAddress"), (31, "SanitizeThread"), (32, "SanitizeMemory"), (33, "UwTable"), (34, "ZExt"), (35, "Builtin"), (36, "Cold"), (37, "OptimizeNone"), (38, "InAlloca"), (39, "NonNull"), (40, "JumpTable"), (41, "Dereferenceable"), (42, "DereferenceableOrNull"), (43, "Convergent"), (44, "SafeStack"), (45, "ArgMemOnly"), (46, "SwiftSelf"), (47, "SwiftError"), (48, "NoRecurse"), (49, "InaccessiblememOnly"), (50, "InaccessiblememOrArgmemonly"), (51, "AllocSize"), (52, "WriteOnly"), (53, "Speculatable"), (54, "StrictFp"), (55, "SanitizeHwAddress"), (56, "NoCfCheck"), (57, "OptForFuzzing"), (58, "Shadowcallstack"), (59, "SpeculativeLoadHardening"), (60, "ImmArg"), (61, "WillReturn"), (62, "NoFree"), (63, "NoSync"), (64, "SanitizeMemtag"), (65, "Preallocated"), (66, "NoMerge"), (67, "NullPointerIsValid"), (68, "NoUndef"), (69, "ByRef"), (70, "MustProgress"), (71, "NoCallback"), (72, "Hot"), (73, "NoProfile"), (74, "VScaleRange"), (75, "SwiftAsync"), (76, "NoSanitizeCoverage"), (77, "ElementType"), (78, "DisableSanitizerInstrumentation"), (79, "NoSanitizeBounds"), (80, "AllocAlign"), (81, "AllocatedPointer"), (82, "AllocKind"), (83, "PresplitCoroutine"), (84, "FnretthunkExtern"), (85, "SkipProfile"), (86, "Memory")];
pub const LINKAGE: &[(u64, &str)] = &[(1, "WeakAny"), (16, "WeakAny"), (2, "Appending"), (3, "Internal"), (4, "LinkOnceAny"), (18, "LinkOnceAny"), (7, "ExternalWeak"), (8, "Common"), (9, "Private"), (13, "Private"), (14, "Private"), (10, "WeakOdr"), (17, "WeakOdr"), (11, "LinkOnceOdr"), (19, "LinkOnceOdr"), (12, "AvailableExternally")];
pub const LINKAGE_ELSE: &str = "External";
pub const THREAD_LOCAL_MODE: &[(u64, &str)] = &[(0, "NotThreadLocal"), (2, "LocalDynamicTls"), (3, "InitialExecTls"), (4, "LocalExecTls")];
pub const THREAD_LOCAL_MODE_ELSE: &str = "GeneralDynamicTls";
pub const UNNAMED_ADDR: &[(u64, &str)] = &[(1, "Global"), (2, "Local")];
pub const UNNAMED_ADDR_ELSE: &str = "None";
pub const RUNTIME_PREEMPTION: &[(u64, &str)] = &[(1, "DsoLocal")];
pub const RUNTIME_PREEMPTION_ELSE: &str = "DsoPreemptable";
