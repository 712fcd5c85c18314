------------------------------ MODULE Catalog ------------------------------
(***************************************************************************)
(* The intrinsics the library implements, under their published (ACLE)     *)
(* names, with the property of properties.jsonl each belongs to.           *)
(***************************************************************************)
EXTENDS TLC
O(f, t, q, n, u, p) == [f |-> f, t |-> t, q |-> q, n |-> n, u |-> u, p |-> p]

Catalog == [
  vadd_s16 |-> O("add", "s16", FALSE, 1, "s16", "C04"),
  vadd_s32 |-> O("add", "s32", FALSE, 1, "s32", "C04"),
  vadd_s64 |-> O("add", "s64", FALSE, 1, "s64", "C04"),
  vadd_s8 |-> O("add", "s8", FALSE, 1, "s8", "C04"),
  vadd_u16 |-> O("add", "u16", FALSE, 1, "u16", "C04"),
  vadd_u32 |-> O("add", "u32", FALSE, 1, "u32", "C04"),
  vadd_u64 |-> O("add", "u64", FALSE, 1, "u64", "C04"),
  vadd_u8 |-> O("add", "u8", FALSE, 1, "u8", "C04"),
  vaddhn_high_s16 |-> O("addhn_high", "s16", FALSE, 1, "s16", "C06"),
  vaddhn_high_s32 |-> O("addhn_high", "s32", FALSE, 1, "s32", "C06"),
  vaddhn_high_s64 |-> O("addhn_high", "s64", FALSE, 1, "s64", "C06"),
  vaddhn_high_u16 |-> O("addhn_high", "u16", FALSE, 1, "u16", "C06"),
  vaddhn_high_u32 |-> O("addhn_high", "u32", FALSE, 1, "u32", "C06"),
  vaddhn_high_u64 |-> O("addhn_high", "u64", FALSE, 1, "u64", "C06"),
  vaddl_high_s16 |-> O("addl_high", "s16", FALSE, 1, "s16", "C05"),
  vaddl_high_s32 |-> O("addl_high", "s32", FALSE, 1, "s32", "C05"),
  vaddl_high_s8 |-> O("addl_high", "s8", FALSE, 1, "s8", "C05"),
  vaddl_high_u16 |-> O("addl_high", "u16", FALSE, 1, "u16", "C05"),
  vaddl_high_u32 |-> O("addl_high", "u32", FALSE, 1, "u32", "C05"),
  vaddl_high_u8 |-> O("addl_high", "u8", FALSE, 1, "u8", "C05"),
  vaddl_u8 |-> O("addl", "u8", FALSE, 1, "u8", "C05"),
  vaddq_f32 |-> O("add", "f32", TRUE, 1, "f32", "C14"),
  vaddq_s16 |-> O("add", "s16", TRUE, 1, "s16", "C04"),
  vaddq_s32 |-> O("add", "s32", TRUE, 1, "s32", "C04"),
  vaddq_s64 |-> O("add", "s64", TRUE, 1, "s64", "C04"),
  vaddq_s8 |-> O("add", "s8", TRUE, 1, "s8", "C04"),
  vaddq_u16 |-> O("add", "u16", TRUE, 1, "u16", "C04"),
  vaddq_u32 |-> O("add", "u32", TRUE, 1, "u32", "C04"),
  vaddq_u64 |-> O("add", "u64", TRUE, 1, "u64", "C04"),
  vaddq_u8 |-> O("add", "u8", TRUE, 1, "u8", "C04"),
  vaddw_high_s16 |-> O("addw_high", "s16", FALSE, 1, "s16", "C05"),
  vaddw_high_s32 |-> O("addw_high", "s32", FALSE, 1, "s32", "C05"),
  vaddw_high_s8 |-> O("addw_high", "s8", FALSE, 1, "s8", "C05"),
  vaddw_high_u16 |-> O("addw_high", "u16", FALSE, 1, "u16", "C05"),
  vaddw_high_u32 |-> O("addw_high", "u32", FALSE, 1, "u32", "C05"),
  vaddw_high_u8 |-> O("addw_high", "u8", FALSE, 1, "u8", "C05"),
  vaddw_s16 |-> O("addw", "s16", FALSE, 1, "s16", "C05"),
  vaddw_s32 |-> O("addw", "s32", FALSE, 1, "s32", "C05"),
  vaddw_s8 |-> O("addw", "s8", FALSE, 1, "s8", "C05"),
  vaddw_u16 |-> O("addw", "u16", FALSE, 1, "u16", "C05"),
  vaddw_u32 |-> O("addw", "u32", FALSE, 1, "u32", "C05"),
  vaddw_u8 |-> O("addw", "u8", FALSE, 1, "u8", "C05"),
  vand_s16 |-> O("and", "s16", FALSE, 1, "s16", "C09"),
  vand_s32 |-> O("and", "s32", FALSE, 1, "s32", "C09"),
  vand_s64 |-> O("and", "s64", FALSE, 1, "s64", "C09"),
  vand_s8 |-> O("and", "s8", FALSE, 1, "s8", "C09"),
  vand_u16 |-> O("and", "u16", FALSE, 1, "u16", "C09"),
  vand_u32 |-> O("and", "u32", FALSE, 1, "u32", "C09"),
  vand_u64 |-> O("and", "u64", FALSE, 1, "u64", "C09"),
  vand_u8 |-> O("and", "u8", FALSE, 1, "u8", "C09"),
  vandq_s16 |-> O("and", "s16", TRUE, 1, "s16", "C09"),
  vandq_s32 |-> O("and", "s32", TRUE, 1, "s32", "C09"),
  vandq_s64 |-> O("and", "s64", TRUE, 1, "s64", "C09"),
  vandq_s8 |-> O("and", "s8", TRUE, 1, "s8", "C09"),
  vandq_u16 |-> O("and", "u16", TRUE, 1, "u16", "C09"),
  vandq_u32 |-> O("and", "u32", TRUE, 1, "u32", "C09"),
  vandq_u64 |-> O("and", "u64", TRUE, 1, "u64", "C09"),
  vandq_u8 |-> O("and", "u8", TRUE, 1, "u8", "C09"),
  vbslq_f32 |-> O("bsl", "f32", TRUE, 1, "f32", "C09"),
  vbslq_u8 |-> O("bsl", "u8", TRUE, 1, "u8", "C09"),
  vcgtq_u8 |-> O("cgt", "u8", TRUE, 1, "u8", "C10"),
  vcltq_f32 |-> O("clt", "f32", TRUE, 1, "f32", "C10"),
  vcombine_s16 |-> O("combine", "s16", FALSE, 1, "s16", "C11"),
  vcombine_s32 |-> O("combine", "s32", FALSE, 1, "s32", "C11"),
  vcombine_s8 |-> O("combine", "s8", FALSE, 1, "s8", "C11"),
  vcombine_u16 |-> O("combine", "u16", FALSE, 1, "u16", "C11"),
  vcombine_u32 |-> O("combine", "u32", FALSE, 1, "u32", "C11"),
  vcombine_u8 |-> O("combine", "u8", FALSE, 1, "u8", "C11"),
  vcvtnq_s32_f32 |-> O("cvtn", "s32", TRUE, 1, "f32", "C15"),
  vcvtq_f32_s32 |-> O("cvt", "f32", TRUE, 1, "s32", "C15"),
  vcvtq_s32_f32 |-> O("cvt", "s32", TRUE, 1, "f32", "C15"),
  vcvtq_u32_f32 |-> O("cvt", "u32", TRUE, 1, "f32", "C15"),
  vdiv_f32 |-> O("div", "f32", FALSE, 1, "f32", "C14"),
  vdiv_f64 |-> O("div", "f64", FALSE, 1, "f64", "C14"),
  vdivq_f32 |-> O("div", "f32", TRUE, 1, "f32", "C14"),
  vdivq_f64 |-> O("div", "f64", TRUE, 1, "f64", "C14"),
  vdup_n_s16 |-> O("dup_n", "s16", FALSE, 1, "s16", "C11"),
  vdup_n_s32 |-> O("dup_n", "s32", FALSE, 1, "s32", "C11"),
  vdup_n_s64 |-> O("dup_n", "s64", FALSE, 1, "s64", "C11"),
  vdup_n_s8 |-> O("dup_n", "s8", FALSE, 1, "s8", "C11"),
  vdup_n_u16 |-> O("dup_n", "u16", FALSE, 1, "u16", "C11"),
  vdup_n_u32 |-> O("dup_n", "u32", FALSE, 1, "u32", "C11"),
  vdup_n_u64 |-> O("dup_n", "u64", FALSE, 1, "u64", "C11"),
  vdup_n_u8 |-> O("dup_n", "u8", FALSE, 1, "u8", "C11"),
  vdupq_n_f32 |-> O("dup_n", "f32", TRUE, 1, "f32", "C11"),
  vdupq_n_s16 |-> O("dup_n", "s16", TRUE, 1, "s16", "C11"),
  vdupq_n_s32 |-> O("dup_n", "s32", TRUE, 1, "s32", "C11"),
  vdupq_n_s8 |-> O("dup_n", "s8", TRUE, 1, "s8", "C11"),
  vdupq_n_u16 |-> O("dup_n", "u16", TRUE, 1, "u16", "C11"),
  vdupq_n_u32 |-> O("dup_n", "u32", TRUE, 1, "u32", "C11"),
  vdupq_n_u8 |-> O("dup_n", "u8", TRUE, 1, "u8", "C11"),
  veor_s16 |-> O("eor", "s16", FALSE, 1, "s16", "C09"),
  veor_s32 |-> O("eor", "s32", FALSE, 1, "s32", "C09"),
  veor_s64 |-> O("eor", "s64", FALSE, 1, "s64", "C09"),
  veor_s8 |-> O("eor", "s8", FALSE, 1, "s8", "C09"),
  veor_u16 |-> O("eor", "u16", FALSE, 1, "u16", "C09"),
  veor_u32 |-> O("eor", "u32", FALSE, 1, "u32", "C09"),
  veor_u64 |-> O("eor", "u64", FALSE, 1, "u64", "C09"),
  veor_u8 |-> O("eor", "u8", FALSE, 1, "u8", "C09"),
  veorq_s16 |-> O("eor", "s16", TRUE, 1, "s16", "C09"),
  veorq_s32 |-> O("eor", "s32", TRUE, 1, "s32", "C09"),
  veorq_s64 |-> O("eor", "s64", TRUE, 1, "s64", "C09"),
  veorq_s8 |-> O("eor", "s8", TRUE, 1, "s8", "C09"),
  veorq_u16 |-> O("eor", "u16", TRUE, 1, "u16", "C09"),
  veorq_u32 |-> O("eor", "u32", TRUE, 1, "u32", "C09"),
  veorq_u64 |-> O("eor", "u64", TRUE, 1, "u64", "C09"),
  veorq_u8 |-> O("eor", "u8", TRUE, 1, "u8", "C09"),
  vext_s16 |-> O("ext", "s16", FALSE, 1, "s16", "C11"),
  vext_u16 |-> O("ext", "u16", FALSE, 1, "u16", "C11"),
  vext_u8 |-> O("ext", "u8", FALSE, 1, "u8", "C11"),
  vextq_u16 |-> O("ext", "u16", TRUE, 1, "u16", "C11"),
  vget_high_f32 |-> O("get_high", "f32", TRUE, 1, "f32", "C11"),
  vget_high_s16 |-> O("get_high", "s16", TRUE, 1, "s16", "C11"),
  vget_high_s32 |-> O("get_high", "s32", TRUE, 1, "s32", "C11"),
  vget_high_s8 |-> O("get_high", "s8", TRUE, 1, "s8", "C11"),
  vget_high_u16 |-> O("get_high", "u16", TRUE, 1, "u16", "C11"),
  vget_high_u32 |-> O("get_high", "u32", TRUE, 1, "u32", "C11"),
  vget_high_u8 |-> O("get_high", "u8", TRUE, 1, "u8", "C11"),
  vget_lane_f32 |-> O("getlane", "f32", FALSE, 1, "f32", "C03"),
  vget_low_f32 |-> O("get_low", "f32", TRUE, 1, "f32", "C11"),
  vget_low_s16 |-> O("get_low", "s16", TRUE, 1, "s16", "C11"),
  vget_low_s32 |-> O("get_low", "s32", TRUE, 1, "s32", "C11"),
  vget_low_s8 |-> O("get_low", "s8", TRUE, 1, "s8", "C11"),
  vget_low_u16 |-> O("get_low", "u16", TRUE, 1, "u16", "C11"),
  vget_low_u32 |-> O("get_low", "u32", TRUE, 1, "u32", "C11"),
  vget_low_u8 |-> O("get_low", "u8", TRUE, 1, "u8", "C11"),
  vgetq_lane_f32 |-> O("getlane", "f32", TRUE, 1, "f32", "C03"),
  vgetq_lane_f64 |-> O("getlane", "f64", TRUE, 1, "f64", "C03"),
  vgetq_lane_s16 |-> O("getlane", "s16", TRUE, 1, "s16", "C03"),
  vgetq_lane_s32 |-> O("getlane", "s32", TRUE, 1, "s32", "C03"),
  vgetq_lane_s64 |-> O("getlane", "s64", TRUE, 1, "s64", "C03"),
  vgetq_lane_s8 |-> O("getlane", "s8", TRUE, 1, "s8", "C03"),
  vgetq_lane_u16 |-> O("getlane", "u16", TRUE, 1, "u16", "C03"),
  vgetq_lane_u32 |-> O("getlane", "u32", TRUE, 1, "u32", "C03"),
  vgetq_lane_u64 |-> O("getlane", "u64", TRUE, 1, "u64", "C03"),
  vgetq_lane_u8 |-> O("getlane", "u8", TRUE, 1, "u8", "C03"),
  vhsub_s16 |-> O("hsub", "s16", FALSE, 1, "s16", "C08"),
  vhsub_s32 |-> O("hsub", "s32", FALSE, 1, "s32", "C08"),
  vhsub_s8 |-> O("hsub", "s8", FALSE, 1, "s8", "C08"),
  vhsub_u16 |-> O("hsub", "u16", FALSE, 1, "u16", "C08"),
  vhsub_u32 |-> O("hsub", "u32", FALSE, 1, "u32", "C08"),
  vhsub_u8 |-> O("hsub", "u8", FALSE, 1, "u8", "C08"),
  vhsubq_s16 |-> O("hsub", "s16", TRUE, 1, "s16", "C08"),
  vhsubq_s32 |-> O("hsub", "s32", TRUE, 1, "s32", "C08"),
  vhsubq_s8 |-> O("hsub", "s8", TRUE, 1, "s8", "C08"),
  vhsubq_u16 |-> O("hsub", "u16", TRUE, 1, "u16", "C08"),
  vhsubq_u32 |-> O("hsub", "u32", TRUE, 1, "u32", "C08"),
  vhsubq_u8 |-> O("hsub", "u8", TRUE, 1, "u8", "C08"),
  vld1_f32 |-> O("ld", "f32", FALSE, 1, "f32", "C01"),
  vld1_f64 |-> O("ld", "f64", FALSE, 1, "f64", "C01"),
  vld1_lane_s8 |-> O("ldlane", "s8", FALSE, 1, "s8", "C03"),
  vld1_lane_u8 |-> O("ldlane", "u8", FALSE, 1, "u8", "C03"),
  vld1_s16 |-> O("ld", "s16", FALSE, 1, "s16", "C01"),
  vld1_s32 |-> O("ld", "s32", FALSE, 1, "s32", "C01"),
  vld1_s64 |-> O("ld", "s64", FALSE, 1, "s64", "C01"),
  vld1_s8 |-> O("ld", "s8", FALSE, 1, "s8", "C01"),
  vld1_u16 |-> O("ld", "u16", FALSE, 1, "u16", "C01"),
  vld1_u32 |-> O("ld", "u32", FALSE, 1, "u32", "C01"),
  vld1_u64 |-> O("ld", "u64", FALSE, 1, "u64", "C01"),
  vld1_u8 |-> O("ld", "u8", FALSE, 1, "u8", "C01"),
  vld1q_dup_f32 |-> O("lddup", "f32", TRUE, 1, "f32", "C03"),
  vld1q_f32 |-> O("ld", "f32", TRUE, 1, "f32", "C01"),
  vld1q_s16 |-> O("ld", "s16", TRUE, 1, "s16", "C01"),
  vld1q_s32 |-> O("ld", "s32", TRUE, 1, "s32", "C01"),
  vld1q_s64 |-> O("ld", "s64", TRUE, 1, "s64", "C01"),
  vld1q_s8 |-> O("ld", "s8", TRUE, 1, "s8", "C01"),
  vld1q_u16 |-> O("ld", "u16", TRUE, 1, "u16", "C01"),
  vld1q_u32 |-> O("ld", "u32", TRUE, 1, "u32", "C01"),
  vld1q_u64 |-> O("ld", "u64", TRUE, 1, "u64", "C01"),
  vld1q_u8 |-> O("ld", "u8", TRUE, 1, "u8", "C01"),
  vld2_f32 |-> O("ld", "f32", FALSE, 2, "f32", "C02"),
  vld2_lane_u8 |-> O("ldlane", "u8", FALSE, 2, "u8", "C03"),
  vld2_s16 |-> O("ld", "s16", FALSE, 2, "s16", "C02"),
  vld2_s32 |-> O("ld", "s32", FALSE, 2, "s32", "C02"),
  vld2_s8 |-> O("ld", "s8", FALSE, 2, "s8", "C02"),
  vld2_u16 |-> O("ld", "u16", FALSE, 2, "u16", "C02"),
  vld2_u32 |-> O("ld", "u32", FALSE, 2, "u32", "C02"),
  vld2_u8 |-> O("ld", "u8", FALSE, 2, "u8", "C02"),
  vld2q_s16 |-> O("ld", "s16", TRUE, 2, "s16", "C02"),
  vld2q_s32 |-> O("ld", "s32", TRUE, 2, "s32", "C02"),
  vld2q_s8 |-> O("ld", "s8", TRUE, 2, "s8", "C02"),
  vld2q_u16 |-> O("ld", "u16", TRUE, 2, "u16", "C02"),
  vld2q_u32 |-> O("ld", "u32", TRUE, 2, "u32", "C02"),
  vld2q_u8 |-> O("ld", "u8", TRUE, 2, "u8", "C02"),
  vld3_f32 |-> O("ld", "f32", FALSE, 3, "f32", "C02"),
  vld3_lane_u8 |-> O("ldlane", "u8", FALSE, 3, "u8", "C03"),
  vld3_s16 |-> O("ld", "s16", FALSE, 3, "s16", "C02"),
  vld3_s32 |-> O("ld", "s32", FALSE, 3, "s32", "C02"),
  vld3_s8 |-> O("ld", "s8", FALSE, 3, "s8", "C02"),
  vld3_u16 |-> O("ld", "u16", FALSE, 3, "u16", "C02"),
  vld3_u32 |-> O("ld", "u32", FALSE, 3, "u32", "C02"),
  vld3_u8 |-> O("ld", "u8", FALSE, 3, "u8", "C02"),
  vld3q_s16 |-> O("ld", "s16", TRUE, 3, "s16", "C02"),
  vld3q_s32 |-> O("ld", "s32", TRUE, 3, "s32", "C02"),
  vld3q_s8 |-> O("ld", "s8", TRUE, 3, "s8", "C02"),
  vld3q_u16 |-> O("ld", "u16", TRUE, 3, "u16", "C02"),
  vld3q_u32 |-> O("ld", "u32", TRUE, 3, "u32", "C02"),
  vld3q_u8 |-> O("ld", "u8", TRUE, 3, "u8", "C02"),
  vld4_f32 |-> O("ld", "f32", FALSE, 4, "f32", "C02"),
  vld4_lane_u8 |-> O("ldlane", "u8", FALSE, 4, "u8", "C03"),
  vld4_s16 |-> O("ld", "s16", FALSE, 4, "s16", "C02"),
  vld4_s32 |-> O("ld", "s32", FALSE, 4, "s32", "C02"),
  vld4_s8 |-> O("ld", "s8", FALSE, 4, "s8", "C02"),
  vld4_u16 |-> O("ld", "u16", FALSE, 4, "u16", "C02"),
  vld4_u32 |-> O("ld", "u32", FALSE, 4, "u32", "C02"),
  vld4_u8 |-> O("ld", "u8", FALSE, 4, "u8", "C02"),
  vld4q_s16 |-> O("ld", "s16", TRUE, 4, "s16", "C02"),
  vld4q_s32 |-> O("ld", "s32", TRUE, 4, "s32", "C02"),
  vld4q_s8 |-> O("ld", "s8", TRUE, 4, "s8", "C02"),
  vld4q_u16 |-> O("ld", "u16", TRUE, 4, "u16", "C02"),
  vld4q_u32 |-> O("ld", "u32", TRUE, 4, "u32", "C02"),
  vld4q_u8 |-> O("ld", "u8", TRUE, 4, "u8", "C02"),
  vmaxq_f32 |-> O("max", "f32", TRUE, 1, "f32", "C10"),
  vmaxq_s16 |-> O("max", "s16", TRUE, 1, "s16", "C10"),
  vmaxq_s32 |-> O("max", "s32", TRUE, 1, "s32", "C10"),
  vmaxq_s8 |-> O("max", "s8", TRUE, 1, "s8", "C10"),
  vmaxq_u16 |-> O("max", "u16", TRUE, 1, "u16", "C10"),
  vmaxq_u32 |-> O("max", "u32", TRUE, 1, "u32", "C10"),
  vmaxq_u8 |-> O("max", "u8", TRUE, 1, "u8", "C10"),
  vminq_f32 |-> O("min", "f32", TRUE, 1, "f32", "C10"),
  vminq_s16 |-> O("min", "s16", TRUE, 1, "s16", "C10"),
  vminq_s32 |-> O("min", "s32", TRUE, 1, "s32", "C10"),
  vminq_s8 |-> O("min", "s8", TRUE, 1, "s8", "C10"),
  vminq_u16 |-> O("min", "u16", TRUE, 1, "u16", "C10"),
  vminq_u32 |-> O("min", "u32", TRUE, 1, "u32", "C10"),
  vminq_u8 |-> O("min", "u8", TRUE, 1, "u8", "C10"),
  vmlal_s16 |-> O("mlal", "s16", FALSE, 1, "s16", "C05"),
  vmlal_s32 |-> O("mlal", "s32", FALSE, 1, "s32", "C05"),
  vmlal_s8 |-> O("mlal", "s8", FALSE, 1, "s8", "C05"),
  vmlal_u16 |-> O("mlal", "u16", FALSE, 1, "u16", "C05"),
  vmlal_u32 |-> O("mlal", "u32", FALSE, 1, "u32", "C05"),
  vmlal_u8 |-> O("mlal", "u8", FALSE, 1, "u8", "C05"),
  vmlaq_f32 |-> O("mla", "f32", TRUE, 1, "f32", "C14"),
  vmlaq_n_f32 |-> O("mla_n", "f32", TRUE, 1, "f32", "C14"),
  vmlaq_s16 |-> O("mla", "s16", TRUE, 1, "s16", "C04"),
  vmlaq_s32 |-> O("mla", "s32", TRUE, 1, "s32", "C04"),
  vmlaq_s8 |-> O("mla", "s8", TRUE, 1, "s8", "C04"),
  vmlaq_u16 |-> O("mla", "u16", TRUE, 1, "u16", "C04"),
  vmlaq_u32 |-> O("mla", "u32", TRUE, 1, "u32", "C04"),
  vmlaq_u8 |-> O("mla", "u8", TRUE, 1, "u8", "C04"),
  vmlsl_s16 |-> O("mlsl", "s16", FALSE, 1, "s16", "C05"),
  vmlsl_s32 |-> O("mlsl", "s32", FALSE, 1, "s32", "C05"),
  vmlsl_s8 |-> O("mlsl", "s8", FALSE, 1, "s8", "C05"),
  vmlsl_u16 |-> O("mlsl", "u16", FALSE, 1, "u16", "C05"),
  vmlsl_u32 |-> O("mlsl", "u32", FALSE, 1, "u32", "C05"),
  vmlsl_u8 |-> O("mlsl", "u8", FALSE, 1, "u8", "C05"),
  vmovl_s16 |-> O("movl", "s16", FALSE, 1, "s16", "C05"),
  vmovl_s32 |-> O("movl", "s32", FALSE, 1, "s32", "C05"),
  vmovl_s8 |-> O("movl", "s8", FALSE, 1, "s8", "C05"),
  vmovl_u16 |-> O("movl", "u16", FALSE, 1, "u16", "C05"),
  vmovl_u32 |-> O("movl", "u32", FALSE, 1, "u32", "C05"),
  vmovl_u8 |-> O("movl", "u8", FALSE, 1, "u8", "C05"),
  vmovn_s32 |-> O("movn", "s32", FALSE, 1, "s32", "C06"),
  vmovn_u16 |-> O("movn", "u16", FALSE, 1, "u16", "C06"),
  vmovn_u32 |-> O("movn", "u32", FALSE, 1, "u32", "C06"),
  vmovq_n_f32 |-> O("dup_n", "f32", TRUE, 1, "f32", "C11"),
  vmul_n_f32 |-> O("mul_n", "f32", FALSE, 1, "f32", "C14"),
  vmul_n_f64 |-> O("mul_n", "f64", FALSE, 1, "f64", "C14"),
  vmul_n_s16 |-> O("mul_n", "s16", FALSE, 1, "s16", "C04"),
  vmul_n_s32 |-> O("mul_n", "s32", FALSE, 1, "s32", "C04"),
  vmul_n_u16 |-> O("mul_n", "u16", FALSE, 1, "u16", "C04"),
  vmul_n_u32 |-> O("mul_n", "u32", FALSE, 1, "u32", "C04"),
  vmul_s16 |-> O("mul", "s16", FALSE, 1, "s16", "C04"),
  vmul_s32 |-> O("mul", "s32", FALSE, 1, "s32", "C04"),
  vmul_s8 |-> O("mul", "s8", FALSE, 1, "s8", "C04"),
  vmul_u16 |-> O("mul", "u16", FALSE, 1, "u16", "C04"),
  vmul_u32 |-> O("mul", "u32", FALSE, 1, "u32", "C04"),
  vmul_u8 |-> O("mul", "u8", FALSE, 1, "u8", "C04"),
  vmull_n_s16 |-> O("mull_n", "s16", FALSE, 1, "s16", "C05"),
  vmull_n_s32 |-> O("mull_n", "s32", FALSE, 1, "s32", "C05"),
  vmull_n_u16 |-> O("mull_n", "u16", FALSE, 1, "u16", "C05"),
  vmull_n_u32 |-> O("mull_n", "u32", FALSE, 1, "u32", "C05"),
  vmull_s16 |-> O("mull", "s16", FALSE, 1, "s16", "C05"),
  vmull_s32 |-> O("mull", "s32", FALSE, 1, "s32", "C05"),
  vmull_s8 |-> O("mull", "s8", FALSE, 1, "s8", "C05"),
  vmull_u16 |-> O("mull", "u16", FALSE, 1, "u16", "C05"),
  vmull_u32 |-> O("mull", "u32", FALSE, 1, "u32", "C05"),
  vmull_u8 |-> O("mull", "u8", FALSE, 1, "u8", "C05"),
  vmulq_f32 |-> O("mul", "f32", TRUE, 1, "f32", "C14"),
  vmulq_n_f32 |-> O("mul_n", "f32", TRUE, 1, "f32", "C14"),
  vmulq_n_f64 |-> O("mul_n", "f64", TRUE, 1, "f64", "C14"),
  vmulq_n_s16 |-> O("mul_n", "s16", TRUE, 1, "s16", "C04"),
  vmulq_n_s32 |-> O("mul_n", "s32", TRUE, 1, "s32", "C04"),
  vmulq_n_u16 |-> O("mul_n", "u16", TRUE, 1, "u16", "C04"),
  vmulq_n_u32 |-> O("mul_n", "u32", TRUE, 1, "u32", "C04"),
  vmulq_s16 |-> O("mul", "s16", TRUE, 1, "s16", "C04"),
  vmulq_s32 |-> O("mul", "s32", TRUE, 1, "s32", "C04"),
  vmulq_s8 |-> O("mul", "s8", TRUE, 1, "s8", "C04"),
  vmulq_u16 |-> O("mul", "u16", TRUE, 1, "u16", "C04"),
  vmulq_u32 |-> O("mul", "u32", TRUE, 1, "u32", "C04"),
  vmulq_u8 |-> O("mul", "u8", TRUE, 1, "u8", "C04"),
  vmvn_s16 |-> O("mvn", "s16", FALSE, 1, "s16", "C09"),
  vmvn_s32 |-> O("mvn", "s32", FALSE, 1, "s32", "C09"),
  vmvn_s8 |-> O("mvn", "s8", FALSE, 1, "s8", "C09"),
  vmvn_u16 |-> O("mvn", "u16", FALSE, 1, "u16", "C09"),
  vmvn_u32 |-> O("mvn", "u32", FALSE, 1, "u32", "C09"),
  vmvn_u8 |-> O("mvn", "u8", FALSE, 1, "u8", "C09"),
  vmvnq_s16 |-> O("mvn", "s16", TRUE, 1, "s16", "C09"),
  vmvnq_s32 |-> O("mvn", "s32", TRUE, 1, "s32", "C09"),
  vmvnq_s8 |-> O("mvn", "s8", TRUE, 1, "s8", "C09"),
  vmvnq_u16 |-> O("mvn", "u16", TRUE, 1, "u16", "C09"),
  vmvnq_u32 |-> O("mvn", "u32", TRUE, 1, "u32", "C09"),
  vmvnq_u8 |-> O("mvn", "u8", TRUE, 1, "u8", "C09"),
  vorr_s16 |-> O("orr", "s16", FALSE, 1, "s16", "C09"),
  vorr_s32 |-> O("orr", "s32", FALSE, 1, "s32", "C09"),
  vorr_s64 |-> O("orr", "s64", FALSE, 1, "s64", "C09"),
  vorr_s8 |-> O("orr", "s8", FALSE, 1, "s8", "C09"),
  vorr_u16 |-> O("orr", "u16", FALSE, 1, "u16", "C09"),
  vorr_u32 |-> O("orr", "u32", FALSE, 1, "u32", "C09"),
  vorr_u64 |-> O("orr", "u64", FALSE, 1, "u64", "C09"),
  vorr_u8 |-> O("orr", "u8", FALSE, 1, "u8", "C09"),
  vorrq_s16 |-> O("orr", "s16", TRUE, 1, "s16", "C09"),
  vorrq_s32 |-> O("orr", "s32", TRUE, 1, "s32", "C09"),
  vorrq_s64 |-> O("orr", "s64", TRUE, 1, "s64", "C09"),
  vorrq_s8 |-> O("orr", "s8", TRUE, 1, "s8", "C09"),
  vorrq_u16 |-> O("orr", "u16", TRUE, 1, "u16", "C09"),
  vorrq_u32 |-> O("orr", "u32", TRUE, 1, "u32", "C09"),
  vorrq_u64 |-> O("orr", "u64", TRUE, 1, "u64", "C09"),
  vorrq_u8 |-> O("orr", "u8", TRUE, 1, "u8", "C09"),
  vpaddl_u8 |-> O("paddl", "u8", FALSE, 1, "u8", "C05"),
  vpaddlq_u16 |-> O("paddl", "u16", TRUE, 1, "u16", "C05"),
  vpaddlq_u8 |-> O("paddl", "u8", TRUE, 1, "u8", "C05"),
  vpmax_f32 |-> O("pmax", "f32", FALSE, 1, "f32", "C10"),
  vpmin_f32 |-> O("pmin", "f32", FALSE, 1, "f32", "C10"),
  vqadd_u8 |-> O("qadd", "u8", FALSE, 1, "u8", "C07"),
  vqaddq_u8 |-> O("qadd", "u8", TRUE, 1, "u8", "C07"),
  vqdmull_s16 |-> O("qdmull", "s16", FALSE, 1, "s16", "C07"),
  vqmovn_u16 |-> O("qmovn", "u16", FALSE, 1, "u16", "C07"),
  vqmovun_s16 |-> O("qmovun", "s16", FALSE, 1, "s16", "C07"),
  vqrshrun_n_s16 |-> O("qrshrun_n", "s16", FALSE, 1, "s16", "C07"),
  vqshrn_n_s16 |-> O("qshrn_n", "s16", FALSE, 1, "s16", "C07"),
  vqshrn_n_s32 |-> O("qshrn_n", "s32", FALSE, 1, "s32", "C07"),
  vqshrn_n_s64 |-> O("qshrn_n", "s64", FALSE, 1, "s64", "C07"),
  vqshrn_n_u16 |-> O("qshrn_n", "u16", FALSE, 1, "u16", "C07"),
  vqshrn_n_u32 |-> O("qshrn_n", "u32", FALSE, 1, "u32", "C07"),
  vqshrn_n_u64 |-> O("qshrn_n", "u64", FALSE, 1, "u64", "C07"),
  vqshrun_n_s16 |-> O("qshrun_n", "s16", FALSE, 1, "s16", "C07"),
  vqshrun_n_s32 |-> O("qshrun_n", "s32", FALSE, 1, "s32", "C07"),
  vqshrun_n_s64 |-> O("qshrun_n", "s64", FALSE, 1, "s64", "C07"),
  vqsub_s16 |-> O("qsub", "s16", FALSE, 1, "s16", "C07"),
  vqsub_s32 |-> O("qsub", "s32", FALSE, 1, "s32", "C07"),
  vqsub_s64 |-> O("qsub", "s64", FALSE, 1, "s64", "C07"),
  vqsub_s8 |-> O("qsub", "s8", FALSE, 1, "s8", "C07"),
  vqsub_u16 |-> O("qsub", "u16", FALSE, 1, "u16", "C07"),
  vqsub_u32 |-> O("qsub", "u32", FALSE, 1, "u32", "C07"),
  vqsub_u64 |-> O("qsub", "u64", FALSE, 1, "u64", "C07"),
  vqsub_u8 |-> O("qsub", "u8", FALSE, 1, "u8", "C07"),
  vqsubq_s16 |-> O("qsub", "s16", TRUE, 1, "s16", "C07"),
  vqsubq_s32 |-> O("qsub", "s32", TRUE, 1, "s32", "C07"),
  vqsubq_s64 |-> O("qsub", "s64", TRUE, 1, "s64", "C07"),
  vqsubq_s8 |-> O("qsub", "s8", TRUE, 1, "s8", "C07"),
  vqsubq_u16 |-> O("qsub", "u16", TRUE, 1, "u16", "C07"),
  vqsubq_u32 |-> O("qsub", "u32", TRUE, 1, "u32", "C07"),
  vqsubq_u64 |-> O("qsub", "u64", TRUE, 1, "u64", "C07"),
  vqsubq_u8 |-> O("qsub", "u8", TRUE, 1, "u8", "C07"),
  vqtbl1_u8 |-> O("qtbl", "u8", FALSE, 1, "u8", "C12"),
  vrecpeq_f32 |-> O("recpe", "f32", TRUE, 1, "f32", "C16"),
  vrecpsq_f32 |-> O("recps", "f32", TRUE, 1, "f32", "C16"),
  vreinterpret_s16_s32 |-> O("reinterpret", "s16", FALSE, 1, "s32", "C13"),
  vreinterpret_s32_s16 |-> O("reinterpret", "s32", FALSE, 1, "s16", "C13"),
  vreinterpret_s8_u8 |-> O("reinterpret", "s8", FALSE, 1, "u8", "C13"),
  vreinterpret_u16_u8 |-> O("reinterpret", "u16", FALSE, 1, "u8", "C13"),
  vreinterpret_u32_u16 |-> O("reinterpret", "u32", FALSE, 1, "u16", "C13"),
  vreinterpret_u32_u8 |-> O("reinterpret", "u32", FALSE, 1, "u8", "C13"),
  vreinterpret_u8_s8 |-> O("reinterpret", "u8", FALSE, 1, "s8", "C13"),
  vreinterpret_u8_u32 |-> O("reinterpret", "u8", FALSE, 1, "u32", "C13"),
  vreinterpretq_s16_u16 |-> O("reinterpret", "s16", TRUE, 1, "u16", "C13"),
  vreinterpretq_u16_s16 |-> O("reinterpret", "u16", TRUE, 1, "s16", "C13"),
  vreinterpretq_u32_f32 |-> O("reinterpret", "u32", TRUE, 1, "f32", "C13"),
  vreinterpretq_u32_f64 |-> O("reinterpret", "u32", TRUE, 1, "f64", "C13"),
  vreinterpretq_u32_s16 |-> O("reinterpret", "u32", TRUE, 1, "s16", "C13"),
  vreinterpretq_u32_s32 |-> O("reinterpret", "u32", TRUE, 1, "s32", "C13"),
  vreinterpretq_u32_s64 |-> O("reinterpret", "u32", TRUE, 1, "s64", "C13"),
  vreinterpretq_u32_s8 |-> O("reinterpret", "u32", TRUE, 1, "s8", "C13"),
  vreinterpretq_u32_u16 |-> O("reinterpret", "u32", TRUE, 1, "u16", "C13"),
  vreinterpretq_u32_u64 |-> O("reinterpret", "u32", TRUE, 1, "u64", "C13"),
  vreinterpretq_u32_u8 |-> O("reinterpret", "u32", TRUE, 1, "u8", "C13"),
  vreinterpretq_u8_f32 |-> O("reinterpret", "u8", TRUE, 1, "f32", "C13"),
  vreinterpretq_u8_f64 |-> O("reinterpret", "u8", TRUE, 1, "f64", "C13"),
  vreinterpretq_u8_s16 |-> O("reinterpret", "u8", TRUE, 1, "s16", "C13"),
  vreinterpretq_u8_s32 |-> O("reinterpret", "u8", TRUE, 1, "s32", "C13"),
  vreinterpretq_u8_s64 |-> O("reinterpret", "u8", TRUE, 1, "s64", "C13"),
  vreinterpretq_u8_s8 |-> O("reinterpret", "u8", TRUE, 1, "s8", "C13"),
  vreinterpretq_u8_u16 |-> O("reinterpret", "u8", TRUE, 1, "u16", "C13"),
  vreinterpretq_u8_u32 |-> O("reinterpret", "u8", TRUE, 1, "u32", "C13"),
  vreinterpretq_u8_u64 |-> O("reinterpret", "u8", TRUE, 1, "u64", "C13"),
  vrev16_s8 |-> O("rev16", "s8", FALSE, 1, "s8", "C11"),
  vrev16_u8 |-> O("rev16", "u8", FALSE, 1, "u8", "C11"),
  vrev16q_s8 |-> O("rev16", "s8", TRUE, 1, "s8", "C11"),
  vrev16q_u8 |-> O("rev16", "u8", TRUE, 1, "u8", "C11"),
  vrev32_s16 |-> O("rev32", "s16", FALSE, 1, "s16", "C11"),
  vrev32_s8 |-> O("rev32", "s8", FALSE, 1, "s8", "C11"),
  vrev32_u16 |-> O("rev32", "u16", FALSE, 1, "u16", "C11"),
  vrev32_u8 |-> O("rev32", "u8", FALSE, 1, "u8", "C11"),
  vrev32q_s16 |-> O("rev32", "s16", TRUE, 1, "s16", "C11"),
  vrev32q_s8 |-> O("rev32", "s8", TRUE, 1, "s8", "C11"),
  vrev32q_u16 |-> O("rev32", "u16", TRUE, 1, "u16", "C11"),
  vrev32q_u8 |-> O("rev32", "u8", TRUE, 1, "u8", "C11"),
  vrev64_f32 |-> O("rev64", "f32", FALSE, 1, "f32", "C11"),
  vrev64_s16 |-> O("rev64", "s16", FALSE, 1, "s16", "C11"),
  vrev64_s32 |-> O("rev64", "s32", FALSE, 1, "s32", "C11"),
  vrev64_s8 |-> O("rev64", "s8", FALSE, 1, "s8", "C11"),
  vrev64_u16 |-> O("rev64", "u16", FALSE, 1, "u16", "C11"),
  vrev64_u32 |-> O("rev64", "u32", FALSE, 1, "u32", "C11"),
  vrev64_u8 |-> O("rev64", "u8", FALSE, 1, "u8", "C11"),
  vrev64q_f32 |-> O("rev64", "f32", TRUE, 1, "f32", "C11"),
  vrev64q_s16 |-> O("rev64", "s16", TRUE, 1, "s16", "C11"),
  vrev64q_s32 |-> O("rev64", "s32", TRUE, 1, "s32", "C11"),
  vrev64q_s8 |-> O("rev64", "s8", TRUE, 1, "s8", "C11"),
  vrev64q_u16 |-> O("rev64", "u16", TRUE, 1, "u16", "C11"),
  vrev64q_u32 |-> O("rev64", "u32", TRUE, 1, "u32", "C11"),
  vrev64q_u8 |-> O("rev64", "u8", TRUE, 1, "u8", "C11"),
  vrshrn_n_u16 |-> O("rshrn_n", "u16", FALSE, 1, "u16", "C06"),
  vrsubhn_s16 |-> O("rsubhn", "s16", FALSE, 1, "s16", "C06"),
  vrsubhn_s32 |-> O("rsubhn", "s32", FALSE, 1, "s32", "C06"),
  vrsubhn_s64 |-> O("rsubhn", "s64", FALSE, 1, "s64", "C06"),
  vrsubhn_u16 |-> O("rsubhn", "u16", FALSE, 1, "u16", "C06"),
  vrsubhn_u32 |-> O("rsubhn", "u32", FALSE, 1, "u32", "C06"),
  vrsubhn_u64 |-> O("rsubhn", "u64", FALSE, 1, "u64", "C06"),
  vshll_n_u8 |-> O("shll_n", "u8", FALSE, 1, "u8", "C05"),
  vshlq_n_s32 |-> O("shl_n", "s32", TRUE, 1, "s32", "C08"),
  vshr_n_u16 |-> O("shr_n", "u16", FALSE, 1, "u16", "C08"),
  vshrn_n_s16 |-> O("shrn_n", "s16", FALSE, 1, "s16", "C06"),
  vshrn_n_s32 |-> O("shrn_n", "s32", FALSE, 1, "s32", "C06"),
  vshrn_n_s64 |-> O("shrn_n", "s64", FALSE, 1, "s64", "C06"),
  vshrn_n_u16 |-> O("shrn_n", "u16", FALSE, 1, "u16", "C06"),
  vshrn_n_u32 |-> O("shrn_n", "u32", FALSE, 1, "u32", "C06"),
  vshrn_n_u64 |-> O("shrn_n", "u64", FALSE, 1, "u64", "C06"),
  vsraq_n_s32 |-> O("sra_n", "s32", TRUE, 1, "s32", "C08"),
  vst1_s16 |-> O("st", "s16", FALSE, 1, "s16", "C01"),
  vst1_s32 |-> O("st", "s32", FALSE, 1, "s32", "C01"),
  vst1_s64 |-> O("st", "s64", FALSE, 1, "s64", "C01"),
  vst1_s8 |-> O("st", "s8", FALSE, 1, "s8", "C01"),
  vst1_u16 |-> O("st", "u16", FALSE, 1, "u16", "C01"),
  vst1_u32 |-> O("st", "u32", FALSE, 1, "u32", "C01"),
  vst1_u64 |-> O("st", "u64", FALSE, 1, "u64", "C01"),
  vst1_u8 |-> O("st", "u8", FALSE, 1, "u8", "C01"),
  vst1q_f32 |-> O("st", "f32", TRUE, 1, "f32", "C01"),
  vst1q_s16 |-> O("st", "s16", TRUE, 1, "s16", "C01"),
  vst1q_s32 |-> O("st", "s32", TRUE, 1, "s32", "C01"),
  vst1q_s64 |-> O("st", "s64", TRUE, 1, "s64", "C01"),
  vst1q_s8 |-> O("st", "s8", TRUE, 1, "s8", "C01"),
  vst1q_u16 |-> O("st", "u16", TRUE, 1, "u16", "C01"),
  vst1q_u32 |-> O("st", "u32", TRUE, 1, "u32", "C01"),
  vst1q_u64 |-> O("st", "u64", TRUE, 1, "u64", "C01"),
  vst1q_u8 |-> O("st", "u8", TRUE, 1, "u8", "C01"),
  vst2_s16 |-> O("st", "s16", FALSE, 2, "s16", "C02"),
  vst2_s32 |-> O("st", "s32", FALSE, 2, "s32", "C02"),
  vst2_s8 |-> O("st", "s8", FALSE, 2, "s8", "C02"),
  vst2_u16 |-> O("st", "u16", FALSE, 2, "u16", "C02"),
  vst2_u32 |-> O("st", "u32", FALSE, 2, "u32", "C02"),
  vst2_u8 |-> O("st", "u8", FALSE, 2, "u8", "C02"),
  vst2q_s16 |-> O("st", "s16", TRUE, 2, "s16", "C02"),
  vst2q_s32 |-> O("st", "s32", TRUE, 2, "s32", "C02"),
  vst2q_s8 |-> O("st", "s8", TRUE, 2, "s8", "C02"),
  vst2q_u16 |-> O("st", "u16", TRUE, 2, "u16", "C02"),
  vst2q_u32 |-> O("st", "u32", TRUE, 2, "u32", "C02"),
  vst2q_u8 |-> O("st", "u8", TRUE, 2, "u8", "C02"),
  vst3_s16 |-> O("st", "s16", FALSE, 3, "s16", "C02"),
  vst3_s32 |-> O("st", "s32", FALSE, 3, "s32", "C02"),
  vst3_s8 |-> O("st", "s8", FALSE, 3, "s8", "C02"),
  vst3_u16 |-> O("st", "u16", FALSE, 3, "u16", "C02"),
  vst3_u32 |-> O("st", "u32", FALSE, 3, "u32", "C02"),
  vst3_u8 |-> O("st", "u8", FALSE, 3, "u8", "C02"),
  vst3q_s16 |-> O("st", "s16", TRUE, 3, "s16", "C02"),
  vst3q_s32 |-> O("st", "s32", TRUE, 3, "s32", "C02"),
  vst3q_s8 |-> O("st", "s8", TRUE, 3, "s8", "C02"),
  vst3q_u16 |-> O("st", "u16", TRUE, 3, "u16", "C02"),
  vst3q_u32 |-> O("st", "u32", TRUE, 3, "u32", "C02"),
  vst3q_u8 |-> O("st", "u8", TRUE, 3, "u8", "C02"),
  vst4_s16 |-> O("st", "s16", FALSE, 4, "s16", "C02"),
  vst4_s32 |-> O("st", "s32", FALSE, 4, "s32", "C02"),
  vst4_s8 |-> O("st", "s8", FALSE, 4, "s8", "C02"),
  vst4_u16 |-> O("st", "u16", FALSE, 4, "u16", "C02"),
  vst4_u32 |-> O("st", "u32", FALSE, 4, "u32", "C02"),
  vst4_u8 |-> O("st", "u8", FALSE, 4, "u8", "C02"),
  vst4q_lane_f32 |-> O("stlane", "f32", TRUE, 4, "f32", "C03"),
  vst4q_s16 |-> O("st", "s16", TRUE, 4, "s16", "C02"),
  vst4q_s32 |-> O("st", "s32", TRUE, 4, "s32", "C02"),
  vst4q_s8 |-> O("st", "s8", TRUE, 4, "s8", "C02"),
  vst4q_u16 |-> O("st", "u16", TRUE, 4, "u16", "C02"),
  vst4q_u32 |-> O("st", "u32", TRUE, 4, "u32", "C02"),
  vst4q_u8 |-> O("st", "u8", TRUE, 4, "u8", "C02"),
  vsub_f32 |-> O("sub", "f32", FALSE, 1, "f32", "C14"),
  vsub_f64 |-> O("sub", "f64", FALSE, 1, "f64", "C14"),
  vsub_s16 |-> O("sub", "s16", FALSE, 1, "s16", "C04"),
  vsub_s32 |-> O("sub", "s32", FALSE, 1, "s32", "C04"),
  vsub_s64 |-> O("sub", "s64", FALSE, 1, "s64", "C04"),
  vsub_s8 |-> O("sub", "s8", FALSE, 1, "s8", "C04"),
  vsub_u16 |-> O("sub", "u16", FALSE, 1, "u16", "C04"),
  vsub_u32 |-> O("sub", "u32", FALSE, 1, "u32", "C04"),
  vsub_u64 |-> O("sub", "u64", FALSE, 1, "u64", "C04"),
  vsub_u8 |-> O("sub", "u8", FALSE, 1, "u8", "C04"),
  vsubhn_s16 |-> O("subhn", "s16", FALSE, 1, "s16", "C06"),
  vsubhn_s32 |-> O("subhn", "s32", FALSE, 1, "s32", "C06"),
  vsubhn_s64 |-> O("subhn", "s64", FALSE, 1, "s64", "C06"),
  vsubhn_u16 |-> O("subhn", "u16", FALSE, 1, "u16", "C06"),
  vsubhn_u32 |-> O("subhn", "u32", FALSE, 1, "u32", "C06"),
  vsubhn_u64 |-> O("subhn", "u64", FALSE, 1, "u64", "C06"),
  vsubl_s16 |-> O("subl", "s16", FALSE, 1, "s16", "C05"),
  vsubl_s32 |-> O("subl", "s32", FALSE, 1, "s32", "C05"),
  vsubl_s8 |-> O("subl", "s8", FALSE, 1, "s8", "C05"),
  vsubl_u16 |-> O("subl", "u16", FALSE, 1, "u16", "C05"),
  vsubl_u32 |-> O("subl", "u32", FALSE, 1, "u32", "C05"),
  vsubl_u8 |-> O("subl", "u8", FALSE, 1, "u8", "C05"),
  vsubq_f32 |-> O("sub", "f32", TRUE, 1, "f32", "C14"),
  vsubq_s16 |-> O("sub", "s16", TRUE, 1, "s16", "C04"),
  vsubq_s32 |-> O("sub", "s32", TRUE, 1, "s32", "C04"),
  vsubq_s64 |-> O("sub", "s64", TRUE, 1, "s64", "C04"),
  vsubq_s8 |-> O("sub", "s8", TRUE, 1, "s8", "C04"),
  vsubq_u16 |-> O("sub", "u16", TRUE, 1, "u16", "C04"),
  vsubq_u32 |-> O("sub", "u32", TRUE, 1, "u32", "C04"),
  vsubq_u64 |-> O("sub", "u64", TRUE, 1, "u64", "C04"),
  vsubq_u8 |-> O("sub", "u8", TRUE, 1, "u8", "C04"),
  vsubw_s16 |-> O("subw", "s16", FALSE, 1, "s16", "C05"),
  vsubw_s32 |-> O("subw", "s32", FALSE, 1, "s32", "C05"),
  vsubw_s8 |-> O("subw", "s8", FALSE, 1, "s8", "C05"),
  vsubw_u16 |-> O("subw", "u16", FALSE, 1, "u16", "C05"),
  vsubw_u32 |-> O("subw", "u32", FALSE, 1, "u32", "C05"),
  vsubw_u8 |-> O("subw", "u8", FALSE, 1, "u8", "C05"),
  vtbl1_u8 |-> O("tbl", "u8", FALSE, 1, "u8", "C12"),
  vtbl2_u8 |-> O("tbl", "u8", FALSE, 2, "u8", "C12"),
  vtbl4_u8 |-> O("tbl", "u8", FALSE, 4, "u8", "C12"),
  vtrn_s16 |-> O("trn", "s16", FALSE, 1, "s16", "C11"),
  vtrn_s32 |-> O("trn", "s32", FALSE, 1, "s32", "C11"),
  vtrn_s8 |-> O("trn", "s8", FALSE, 1, "s8", "C11"),
  vtrn_u16 |-> O("trn", "u16", FALSE, 1, "u16", "C11"),
  vtrn_u32 |-> O("trn", "u32", FALSE, 1, "u32", "C11"),
  vtrn_u8 |-> O("trn", "u8", FALSE, 1, "u8", "C11"),
  vtrnq_s16 |-> O("trn", "s16", TRUE, 1, "s16", "C11"),
  vtrnq_u16 |-> O("trn", "u16", TRUE, 1, "u16", "C11"),
  vtrnq_u32 |-> O("trn", "u32", TRUE, 1, "u32", "C11"),
  vuzp_s8 |-> O("uzp", "s8", FALSE, 1, "s8", "C11"),
  vuzp_u8 |-> O("uzp", "u8", FALSE, 1, "u8", "C11"),
  vzip_s16 |-> O("zip", "s16", FALSE, 1, "s16", "C11"),
  vzip_s8 |-> O("zip", "s8", FALSE, 1, "s8", "C11"),
  vzip_u8 |-> O("zip", "u8", FALSE, 1, "u8", "C11")
]
OpNames == DOMAIN Catalog
=============================================================================
