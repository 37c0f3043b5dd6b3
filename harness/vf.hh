// Verifier intrinsics available to the harnesses (interpreted by llvc, never executed).
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <iostream>
#include <sstream>
#include <array>
#include <memory>
extern "C" {
uint8_t vf_u8(const char* name);
uint16_t vf_u16(const char* name);
uint32_t vf_u32(const char* name);
uint64_t vf_u64(const char* name);
int64_t vf_i64(const char* name);
bool vf_bool(const char* name);
void vf_assume(bool c);
void vf_assert(bool c, const char* label);
void vf_bytes(void* p, std::size_t n, const char* name);
void vf_string(std::string* s, const char* name);
void vf_vector(void* v, const char* name);
void vf_istream(void* s, const char* name);
void vf_split(void* p, std::size_t n, const char* name);
void vf_blk_e(const uint8_t* src, uint8_t* dst);
void vf_blk_d(const uint8_t* src, uint8_t* dst);
void vf_hook(const char* name, ...);
void vf_end(const char* name);
}
