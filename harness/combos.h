// Type combinations exercised by the harness (generated once, kept as source).
#ifndef VF_COMBOS_H_
#define VF_COMBOS_H_
#include <cstdint>
#define VF_L0 float
#define VF_R0 float
#define VF_A0 float
#define VF_D0 float
#define VF_L1 double
#define VF_R1 double
#define VF_A1 double
#define VF_D1 double
#define VF_L2 double
#define VF_R2 float
#define VF_A2 double
#define VF_D2 float
#define VF_L3 float
#define VF_R3 double
#define VF_A3 double
#define VF_D3 double
#define VF_L4 std::int8_t
#define VF_R4 std::int8_t
#define VF_A4 std::int32_t
#define VF_D4 std::int32_t
#define VF_L5 std::int8_t
#define VF_R5 std::int8_t
#define VF_A5 std::int32_t
#define VF_D5 std::int8_t
#define VF_L6 std::int8_t
#define VF_R6 std::int8_t
#define VF_A6 std::int32_t
#define VF_D6 std::uint8_t
#define VF_L7 std::int8_t
#define VF_R7 std::int8_t
#define VF_A7 std::int32_t
#define VF_D7 std::int16_t
#define VF_L8 std::uint8_t
#define VF_R8 std::uint8_t
#define VF_A8 std::int32_t
#define VF_D8 std::int32_t
#define VF_L9 std::uint8_t
#define VF_R9 std::uint8_t
#define VF_A9 std::int32_t
#define VF_D9 std::uint8_t
#define VF_L10 std::uint8_t
#define VF_R10 std::uint8_t
#define VF_A10 std::int32_t
#define VF_D10 std::int8_t
#define VF_L11 std::uint8_t
#define VF_R11 std::uint8_t
#define VF_A11 std::int32_t
#define VF_D11 std::int16_t
#define VF_L12 std::int8_t
#define VF_R12 std::uint8_t
#define VF_A12 std::int32_t
#define VF_D12 std::int32_t
#define VF_L13 std::uint8_t
#define VF_R13 std::int8_t
#define VF_A13 std::int32_t
#define VF_D13 std::int16_t
#define VF_L14 std::int8_t
#define VF_R14 std::uint8_t
#define VF_A14 std::int32_t
#define VF_D14 std::uint8_t
#define VF_L15 std::int8_t
#define VF_R15 std::int16_t
#define VF_A15 std::int32_t
#define VF_D15 std::int16_t
#define VF_L16 std::int8_t
#define VF_R16 std::int16_t
#define VF_A16 std::int32_t
#define VF_D16 std::int32_t
#define VF_L17 std::int16_t
#define VF_R17 std::int8_t
#define VF_A17 std::int32_t
#define VF_D17 std::int16_t
#define VF_L18 std::int16_t
#define VF_R18 std::int8_t
#define VF_A18 std::int32_t
#define VF_D18 std::int32_t
#define VF_L19 std::int8_t
#define VF_R19 std::int16_t
#define VF_A19 std::int32_t
#define VF_D19 std::int8_t
#define VF_L20 std::uint8_t
#define VF_R20 std::int16_t
#define VF_A20 std::int32_t
#define VF_D20 std::int16_t
#define VF_L21 std::int16_t
#define VF_R21 std::int8_t
#define VF_A21 std::int32_t
#define VF_D21 std::uint8_t
#define VF_NUM_COMBOS 22
#define VF_FOREACH_COMBO(X) \
  X(0, "f32xf32_f32", T::f32, T::f32, T::f32, T::f32) \
  X(1, "f64xf64_f64", T::f64, T::f64, T::f64, T::f64) \
  X(2, "f64xf32_f32", T::f64, T::f32, T::f64, T::f32) \
  X(3, "f32xf64_f64", T::f32, T::f64, T::f64, T::f64) \
  X(4, "i8xi8_i32", T::i8, T::i8, T::i32, T::i32) \
  X(5, "i8xi8_i8", T::i8, T::i8, T::i32, T::i8) \
  X(6, "i8xi8_u8", T::i8, T::i8, T::i32, T::u8) \
  X(7, "i8xi8_i16", T::i8, T::i8, T::i32, T::i16) \
  X(8, "u8xu8_i32", T::u8, T::u8, T::i32, T::i32) \
  X(9, "u8xu8_u8", T::u8, T::u8, T::i32, T::u8) \
  X(10, "u8xu8_i8", T::u8, T::u8, T::i32, T::i8) \
  X(11, "u8xu8_i16", T::u8, T::u8, T::i32, T::i16) \
  X(12, "i8xu8_i32", T::i8, T::u8, T::i32, T::i32) \
  X(13, "u8xi8_i16", T::u8, T::i8, T::i32, T::i16) \
  X(14, "i8xu8_u8", T::i8, T::u8, T::i32, T::u8) \
  X(15, "i8xi16_i16", T::i8, T::i16, T::i32, T::i16) \
  X(16, "i8xi16_i32", T::i8, T::i16, T::i32, T::i32) \
  X(17, "i16xi8_i16", T::i16, T::i8, T::i32, T::i16) \
  X(18, "i16xi8_i32", T::i16, T::i8, T::i32, T::i32) \
  X(19, "i8xi16_i8", T::i8, T::i16, T::i32, T::i8) \
  X(20, "u8xi16_i16", T::u8, T::i16, T::i32, T::i16) \
  X(21, "i16xi8_u8", T::i16, T::i8, T::i32, T::u8)
#endif
