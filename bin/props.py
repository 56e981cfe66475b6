# Which functions under contract decide each property (the property's cone),
# and which concrete replay stands behind it.
CUR = ["BitCursor::" + f for f in ("new", "new_with_len", "byte_len", "bit_len", "tell_bit", "tell_byte", "exhausted",
                                    "clear_block_state", "load_current_block", "read")]
RD = [f for f in CUR if not f.endswith(("exhausted", "bit_len"))]
VBR = ["BitCursor::read_vbr"]
TYPED = ["BitCursor::read_as", "BitCursor::read_exact"]
ALIGN = ["BitCursor::seek_bit", "BitCursor::align32"]
DEF = ["Abbrev::new", "AbbrevOpEnc as TryFromPrimitive::try_from"]
OPS = ["AbbrevOp::decode_char6", "AbbrevOp::parse", "Abbrev::parse"]
SCOPE = ["Scope as Default::default"] + ["Scope::" + f for f in ("new", "abbrev_id_width", "extend_abbrevs", "get_abbrev", "is_blockinfo", "blockinfo_block_id",
                                                                "set_blockinfo_block_id")]
PARSER = ["StreamParser::" + f for f in ("new", "scope", "scope_mut", "enter_block", "exit_block", "define_abbrev", "interpret_blockinfo",
                                         "parse_unabbrev", "parse_with_abbrev", "advance_one", "advance")]
IDS = ["AbbrevId as From<u64>::from", "ReservedAbbrevId as TryFromPrimitive::try_from", "BlockInfoCode as TryFromPrimitive::try_from"]
RECS = ["Record::from_unabbrev", "Record::from_abbrev"]
OPEN = ["Bitstream::from_cursor", "Bitstream::from", "Bitstream::from_raw", "Bitstream::from_wrapped"]
PULL = ["Bitstream::advance", "Bitstream as Iterator::next"]

AL = ["Align::" + f for f in ("is_pow2", "log2", "from_shift", "from_byte_align", "from_bit_align", "shift", "byte_align", "bit_align")]
ALW = ["MaybeAlign as TryFrom<u8>::try_from", "AlignedTypeWidth as TryFrom<u32>::try_from", "AddressSpace as TryFrom<u32>::try_from", "AddressSpace as TryFrom<u64>::try_from"]
ALORD = ["AlignedType as PartialOrd::partial_cmp", "AlignedType as Ord::cmp", "TypeAlignSpec as PartialEq::eq", "TypeAlignSpec as PartialOrd::partial_cmp", "TypeAlignSpec as Ord::cmp",
         "PointerAlignSpec as PartialOrd::partial_cmp", "PointerAlignSpec as Ord::cmp"]
ALTAB = ["TypeAlignSpecs as Default::default", "PointerAlignSpec as Default::default", "PointerAlignSpecs as Default::default", "TypeAlignSpecs::update", "PointerAlignSpecs::update"]
ALSPEC = ["TypeAlignSpec::new", "PointerAlignSpec::new", "TypeAlignSpec as FromStr::from_str", "PointerAlignSpec as FromStr::from_str"]

REC = ["Record::" + f for f in ("code", "fields", "try_string", "try_blob")]
QUERY = ["Records::" + f for f in ("by_code", "one", "exactly_one", "one_or_none")] + ["Blocks::" + f for f in ("by_id", "exactly_one", "one_or_none")]

TYPES = (["Type::" + f for f in ("is_floating", "is_integer", "is_pointee", "is_array_element", "is_struct_element", "is_vector_element", "is_first_class", "is_argument", "is_return",
                                  "new_struct", "new_integer", "new_pointer", "new_array", "new_scalable_vector", "new_vector", "new_function")]
         + ["IntegerType as TryFrom<u32>::try_from", "PointerType::new", "ArrayType::new", "VectorType::new", "StructType::new", "FunctionType::new", "AddressSpace as TryFrom<u64>::try_from"])
TYTAB = (["TypeCode as TryFromPrimitive::try_from", "TypeCode as IntoPrimitive::into", "Record::code", "Record::fields", "Record::try_string", "Records::by_code", "Records::one",
          "TypeRef as From<usize>::from", "TypeRef as From<u64>::from", "PartialType::resolve", "TypeTable::get", "TypeTable as TryFrom<&Block>::try_from"]
         + ["PartialTypeTable::" + f for f in ("new", "add", "get", "resolve", "reify")])

STRTAB = ["StrtabRef as From<(usize,usize)>::from", "StrtabRef as From<(u64,u64)>::from"] + ["Strtab::" + f for f in ("get", "try_get", "read_name")] + ["Strtab as AsRef<[u8]>::as_ref"]
FLAGS = [f + " as TryFromPrimitive::try_from" for f in ("Visibility", "DllStorageClass", "CallingConvention")] + [f + " as From<u64>::from" for f in ("Linkage", "ThreadLocalMode", "UnnamedAddr", "RuntimePreemption")]
RECMAP = ["PartialMapCtx::use_strtab", "MapCtx::use_strtab", "Comdat as PartialCtxMappable<Record>::try_map", "Alias as CtxMappable<Record>::try_map", "Function as CtxMappable<Record>::try_map",
          "SelectionKind as TryFromPrimitive::try_from"]
OPS15 = ["FunctionCode as TryFromPrimitive::try_from", "UnaryOp as TryFrom<u64>::try_from", "BinaryOp as TryFrom<(u64,&Type)>::try_from"]

PROPS = {
    "C01": {"units": {"cursor": CUR + TYPED}, "harness": "bc"},
    "C02": {"units": {"cursor": RD + ["BitCursor::read_vbr", "BitCursor::read_svbr"]}, "harness": "bc"},
    "C03": {"units": {"cursor": RD + ALIGN + ["BitCursor as Seek::seek", "BitCursor as Seek::stream_position"]}, "harness": "bc"},
    "C04": {"units": {"bitstream": "*"}, "harness": "bs"},
    "C05": {"units": {"bitstream": CUR + TYPED + ["BitCursor as Seek::seek", "BitCursor::seek_bit", "StreamParser::new"] + OPEN}, "harness": "bs"},
    "C06": {"units": {"bitstream": CUR + VBR + DEF + ["StreamParser::define_abbrev"]}, "harness": "bs"},
    "C07": {"units": {"bitstream": CUR + TYPED + VBR + ALIGN + OPS + ["StreamParser::parse_with_abbrev", "Record::from_abbrev"]}, "harness": "bs"},
    "C08": {"units": {"bitstream": CUR + VBR + ALIGN + SCOPE + ["StreamParser::" + f for f in ("new", "scope", "scope_mut", "enter_block", "exit_block", "define_abbrev",
                       "interpret_blockinfo", "parse_with_abbrev", "advance_one")] + IDS[2:]}, "harness": "bs"},
    "C09": {"units": {"bitstream": CUR + TYPED + VBR + ALIGN + DEF + OPS + SCOPE + PARSER + IDS + RECS + PULL}, "harness": "bs"},
    "C10": {"units": {"align": AL + ALW}, "harness": "sup"},
    "C11": {"units": {"align": ALORD + ALTAB + ["TypeAlignSpec::new", "PointerAlignSpec::new"]}, "harness": "sup"},
    "C12": {"units": {"align": AL + ALW[1:] + ALSPEC}, "harness": "sup"},
    "C13": {"units": {"datalayout": "*"}, "harness": "map"},
    "C14": {"units": {"ty": "*"}, "harness": "sup"},
    "C15": {"units": {"enums": "*"}, "harness": "en"},
    "C16": {"units": {"rec": "*"}, "harness": "mp", "crate": "harness2"},
    "C17": {"units": {"rec": ["Record::code"] + QUERY}, "harness": "mp", "crate": "harness2"},
    "C18": {"units": {"attrs": "*"}, "harness": "mp", "crate": "harness2"},
    "C19": {"units": {"types": TYPES + TYTAB}, "harness": "mp", "crate": "harness2"},
    "C20": {"units": {"unroll": "*", "bitstream": CUR + TYPED + VBR + ALIGN + DEF + OPS + SCOPE + PARSER + IDS + RECS + OPEN + PULL,
                      "rec": QUERY + ["Record::code", "Record::fields", "Record::try_string", "Record::try_blob"] + [b + " as TryFrom<&Block>::try_from" for b in ("Strtab", "Symtab", "Identification")],
                      "enums": ["BlockId as From<u64>::from", "IrBlockId as TryFromPrimitive::try_from", "ReservedBlockId as TryFromPrimitive::try_from"],
                      "module": ["Module as TryFrom<(&Block,&mutPartialMapCtx)>::try_from"]}, "harness": "mp", "crate": "harness2"},
    "C21": {"units": {"module": RECMAP, "rec": ["Record::fields"] + STRTAB, "types": ["TypeTable::get"], "attrs": ["Attributes::get"], "align": ["MaybeAlign as TryFrom<u8>::try_from"] + AL[:4], "enums": FLAGS},
            "harness": "mp", "crate": "harness2"},
    "C22": {"units": {"module": "*", "rec": REC + QUERY, "enums": OPS15, "types": ["TypeTable as TryFrom<&Block>::try_from"], "attrs": ["AttributeGroups as TryFrom<&Block>::try_from", "Attributes as TryFrom<(&Block,&PartialMapCtx)>::try_from"],
                      "datalayout": ["DataLayout as FromStr::from_str"]}, "harness": "mp", "crate": "harness2"},
}

HOOKS = {"guard": "cfg(vx_hooks)", "enable": "RUSTFLAGS='--cfg vx_hooks' (harness2 is built with it)", "source_commits": ["d81d5f9af1f0008320941a292f1cc3b177d32b13"]}
NOT_APPLICABLE = {}
NOTES = {}
