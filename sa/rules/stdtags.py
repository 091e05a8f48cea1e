"""The standard tags: id, type, value size of the implicit ones (specification)."""
IDS = {
    0: "implicit::ILNullTag", 1: "implicit::ILBoolTag", 2: "implicit::ILInt8Tag", 3: "implicit::ILUInt8Tag", 4: "implicit::ILInt16Tag",
    5: "implicit::ILUInt16Tag", 6: "implicit::ILInt32Tag", 7: "implicit::ILUInt32Tag", 8: "implicit::ILInt64Tag", 9: "implicit::ILUInt64Tag",
    10: "implicit::ILILInt64Tag", 11: "implicit::ILBin32Tag", 12: "implicit::ILBin64Tag", 13: "implicit::ILBin128Tag",
    14: "implicit::ILSignedILInt64Tag",
    16: "explicit::ILByteArrayTag", 17: "explicit::ILStringTag", 18: "explicit::ILBigIntTag", 19: "explicit::ILBigDecTag",
    20: "explicit::ILILIntArrayTag", 21: "explicit::ILTagArrayTag", 22: "explicit::ILTagSeqTag", 23: "explicit::ILRangeTag",
    24: "explicit::ILVersionTag", 25: "explicit::ILOIDTag", 30: "explicit::ILDictTag", 31: "explicit::ILStrDictTag"}
PRE = "il2_iltags::tags::standard::"
