#!/usr/bin/env python3
"""Writes units/enums_*.vc: the meaning LLVM assigns to each code (BitcodeReader.cpp,
LLVMBitCodes.h, CallingConv.h, Attributes.td), independently of /repo's tables."""
import os
U=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"units")
def seq(start, names): return [(n, start+i) for i,n in enumerate(names.split())]
def pairs(s):
    out=[]
    for w in s.split(): n,c=w.split("="); out.append((n,int(c)))
    return out
def snake(n):
    o=""
    for i,c in enumerate(n):
        if c.isupper() and i and not n[i-1].isupper(): o+="_"
        o+=c.lower()
    return o
# derives the mappers rely on
DERIVE={"ReservedBlockId":"Copy, Clone","IrBlockId":"Copy, Clone","AttributeCode":"PartialEq, Eq, Structural","AttributeKind":"PartialEq, Eq, Structural",
"AttributeId":"Copy, Clone, PartialEq, Eq, Structural"}
def ty(name):
    d=DERIVE.get(name)
    if not d: return f"@@type {name}\n"
    return f"@@type {name} #[derive({d})]\n@@derives {name} "+" ".join(x for x in d.split(", ") if x!="Structural")+"\n"
def enumtry(name, table):
    f="code_"+snake(name)
    s=ty(name)+f"@@enumtry {name}\n    ensures r.is_ok() == known_{snake(name)}(vx_p), r matches Ok(x) ==> {f}(x) == vx_p\n@@verbatim\n"
    s+=f"pub open spec fn {f}(x: {name}) -> int {{\n    match x {{\n"
    for n,c in table: s+=f"        {name}::{n} => {c},\n"
    s+="        _ => -1,\n    }\n}\n"
    s+=f"pub open spec fn known_{snake(name)}(c: u64) -> bool {{\n    "
    cs=sorted(c for _,c in table); runs=[]
    for c in cs:
        if runs and runs[-1][1]==c-1: runs[-1][1]=c
        else: runs.append([c,c])
    s+=" || ".join(f"{a} <= c <= {b}" if a!=b else f"c == {a}" for a,b in runs)
    s+="\n}\n@@end\n"
    return s
SUP=[("Visibility",seq(0,"Default Hidden Protected")),("DllStorageClass",seq(0,"Default Import Export")),
("CallingConvention",pairs("C=0 Fast=8 Cold=9 GHC=10 HiPE=11 WebKitJS=12 AnyReg=13 PreserveMost=14 PreserveAll=15 Swift=16 CXXFASTTLS=17 X86Stdcall=64 X86Fastcall=65 ARMAPCS=66 ARMAAPCS=67 ARMAAPCSVFP=68 MSP430INTR=69 X86ThisCall=70 PTXKernel=71 PTXDevice=72 SPIRFUNC=75 SPIRKERNEL=76 IntelOCLBI=77 X8664SysV=78 Win64=79 X86VectorCall=80 HHVM=81 HHVMC=82 X86INTR=83 AVRINTR=84 AVRSIGNAL=85 AVRBUILTIN=86 AMDGPUVS=87 AMDGPUGS=88 AMDGPUPS=89 AMDGPUCS=90 AMDGPUKERNEL=91 X86RegCall=92 AMDGPUHS=93 MSP430BUILTIN=94 AMDGPULS=95 AMDGPUES=96"))]
CODES=[("ReservedBlockId",[("BlockInfo",0)]+[(f"Reserved{i}",i) for i in range(1,8)]),
("IrBlockId",seq(8,"Module ParamAttr ParamAttrGroup Constants Function Identification ValueSymtab Metadata MetadataAttachment Type Uselist ModuleStrtab GlobalValSummary OperandBundleTags MetadataKind Strtab FullLtoGlobalValSummary Symtab SyncScopeNames")),
("ReservedAbbrevId",seq(0,"EndBlock EnterSubBlock DefineAbbrev UnabbrevRecord")),
("AbbrevOpEnc",seq(1,"Fixed Vbr Array Char6 Blob")),
("BlockInfoCode",seq(1,"SetBid BlockName SetRecordName")),
("IdentificationCode",seq(1,"ProducerString Epoch")),
("ModuleCode",pairs("Version=1 Triple=2 DataLayout=3 Asm=4 SectionName=5 DepLib=6 GlobalVar=7 Function=8 AliasOld=9 GcName=11 Comdat=12 VstOffset=13 Alias=14 MetadataValuesUnused=15 SourceFilename=16 Hash=17 IFunc=18")),
("StrtabCode",[("Blob",1)]),("SymtabCode",[("Blob",1)]),
("FunctionCode",pairs("DeclareBlocks=1 InstBinop=2 InstCast=3 InstGepOld=4 InstSelect=5 InstExtractelt=6 InstInsertelt=7 InstShufflevec=8 InstCmp=9 InstRet=10 InstBr=11 InstSwitch=12 InstInvoke=13 InstUnreachable=15 InstPhi=16 InstAlloca=19 InstLoad=20 InstVaarg=23 InstStoreOld=24 InstExtractval=26 InstInsertval=27 InstCmp2=28 InstVselect=29 InstInboundsGepOld=30 InstIndirectbr=31 DebugLocAgain=33 InstCall=34 DebugLoc=35 InstFence=36 InstCmpxchgOld=37 InstAtomicrmwOld=38 InstResume=39 InstLandingpadOld=40 InstLoadatomic=41 InstStoreatomicOld=42 InstGep=43 InstStore=44 InstStoreatomic=45 InstCmpxchg=46 InstLandingpad=47 InstCleanupret=48 InstCatchret=49 InstCatchpad=50 InstCleanuppad=51 InstCatchswitch=52 OperandBundle=55 InstUnop=56 Instcallbr=57 InstFreeze=58 InstAtomicrmw=59")),
("RMWOperation",seq(0,"Xchg Add Sub And Nand Or Xor Max Min UMax UMin FAdd FSub"))]
TYC=[("TypeCode",seq(1,"NumEntry Void Float Double Label Opaque Integer Pointer FunctionOld Half Array Vector X86Fp80 Fp128 PpcFp128 Metadata X86Mmx StructAnon StructName StructNamed Function Token BFloat X86Amx OpaquePointer"))]
ATC=[("AttributeCode",seq(1,"EntryOld Entry GroupCodeEntry"))]
OPC=[("UnaryOpcode",[("FNeg",0)]),("BinaryOpcode",seq(0,"Add Sub Mul UDiv SDiv URem SRem Shl LShr AShr And Or Xor"))]
ATTR=[("AttributeKind",pairs("Enum=0 IntKeyValue=1 StrKey=3 StrKeyValue=4")),
("AttributeId",seq(1,"Alignment AlwaysInline ByVal InlineHint InReg MinSize Naked Nest NoAlias NoBuiltin NoCapture NoDuplicate NoImplicitFloat NoInline NonLazyBind NoRedZone NoReturn NoUnwind OptimizeForSize ReadNone ReadOnly Returned ReturnsTwice SExt StackAlignment StackProtect StackProtectReq StackProtectStrong StructRet SanitizeAddress SanitizeThread SanitizeMemory UwTable ZExt Builtin Cold OptimizeNone InAlloca NonNull JumpTable Dereferenceable DereferenceableOrNull Convergent SafeStack ArgMemOnly SwiftSelf SwiftError NoRecurse InaccessiblememOnly InaccessiblememOrArgmemonly AllocSize WriteOnly Speculatable StrictFp SanitizeHwAddress NoCfCheck OptForFuzzing Shadowcallstack SpeculativeLoadHardening ImmArg WillReturn NoFree NoSync SanitizeMemtag Preallocated NoMerge NullPointerIsValid NoUndef ByRef MustProgress NoCallback Hot NoProfile VScaleRange SwiftAsync NoSanitizeCoverage ElementType DisableSanitizerInstrumentation NoSanitizeBounds AllocAlign AllocatedPointer AllocKind PresplitCoroutine FnretthunkExtern SkipProfile Memory"))]
def fb(name, default, table):
    """From<u64> with a fallback"""
    f="from_"+snake(name)
    s=f"@@type {name}\n@@verbatim\npub open spec fn {f}(c: u64) -> {name} {{\n    "
    for n,cs in table:
        if n==default: continue
        s+="if "+" || ".join(f"c == {x}" for x in cs)+f" {{ {name}::{n} }} else "
    s+=f"{{ {name}::{default} }}\n}}\n@@end\n@@fn {name} as From<u64>::from\n@@params value\n@@spec\n    ensures r == {f}(value)\n"
    return s
FB=[("Linkage","External",[("WeakAny",[1,16]),("Appending",[2]),("Internal",[3]),("LinkOnceAny",[4,18]),("ExternalWeak",[7]),("Common",[8]),("Private",[9,13,14]),("WeakOdr",[10,17]),("LinkOnceOdr",[11,19]),("AvailableExternally",[12])]),
("ThreadLocalMode","GeneralDynamicTls",[("NotThreadLocal",[0]),("LocalDynamicTls",[2]),("InitialExecTls",[3]),("LocalExecTls",[4])]),
("UnnamedAddr","None",[("Global",[1]),("Local",[2])]),("RuntimePreemption","DsoPreemptable",[("DsoLocal",[1])])]
def w(n,t): open(os.path.join(U,n),"w").write(t)
w("enums_sup.vc","@@source llvm-support/src/lib.rs\n"+"".join(enumtry(*x) for x in SUP)+"".join(fb(*x) for x in FB))
w("enums_blockids.vc","@@source llvm-support/src/lib.rs\n@@source llvm-support/src/bitcodes.rs\n"+"".join(enumtry(*x) for x in CODES[:2]))
w("enums_codes.vc","@@include enums_blockids.vc\n@@source llvm-support/src/bitcodes.rs\n"+"".join(enumtry(*x) for x in CODES[2:]))
w("enums_type.vc","@@source llvm-support/src/bitcodes.rs\n"+"".join(enumtry(*x) for x in TYC))
w("enums_attr.vc","@@source llvm-support/src/bitcodes.rs\n"+"".join(enumtry(*x) for x in ATC)+"@@source llvm-support/src/attribute.rs\n"+"".join(enumtry(*x) for x in ATTR))
w("enums_op.vc","@@source llvm-support/src/bitcodes.rs\n"+"".join(enumtry(*x) for x in OPC))
# the same tables for the concrete replay (by Debug name)
def rs(name, tab): return f"pub const {snake(name).upper()}: &[(u64, &str)] = &[" + ", ".join(f"({c}, \"{n}\")" for n,c in tab) + "];\n"
t="//! Written by tools/genenums.py: the meaning LLVM assigns to each code.\n"
for n,tab in SUP+CODES+TYC+ATC+OPC+ATTR: t+=rs(n,tab)
for n,d,tab in FB:
    t+=rs(n,[(a,c) for a,cs in tab for c in cs])
    t+=f"pub const {snake(n).upper()}_ELSE: &str = \"{d}\";\n"
open(os.path.join(os.path.dirname(U),"harness/src/enumtab.rs"),"w").write(t)
