// Generated by tools/gen_bind.py: bound structures of 1 to 50 fields.
#pragma once

struct N1
{
    int64_t f0{};
    CONFIGOR_BIND(configor::json::value, N1, OPTIONAL(f0))
    enum { Count = 1 };
    static bool required(size_t i) { static const bool r[] = { 0 }; return r[i]; }
    static const char* name(size_t i) { static const char* const r[] = { "f0" }; return r[i]; }
    int64_t& field(size_t i) { int64_t* const r[] = { &f0 }; return *r[i]; }
};
struct N2
{
    int64_t f0{}, f1{};
    CONFIGOR_BIND(configor::json::value, N2, REQUIRED(f0), OPTIONAL(f1))
    enum { Count = 2 };
    static bool required(size_t i) { static const bool r[] = { 1, 0 }; return r[i]; }
    static const char* name(size_t i) { static const char* const r[] = { "f0", "f1" }; return r[i]; }
    int64_t& field(size_t i) { int64_t* const r[] = { &f0, &f1 }; return *r[i]; }
};
struct N3
{
    int64_t f0{}, f1{}, f2{};
    CONFIGOR_BIND(configor::json::value, N3, OPTIONAL(f0, "back\\0"), REQUIRED(f1), OPTIONAL(f2))
    enum { Count = 3 };
    static bool required(size_t i) { static const bool r[] = { 0, 1, 0 }; return r[i]; }
    static const char* name(size_t i) { static const char* const r[] = { "back\\0", "f1", "f2" }; return r[i]; }
    int64_t& field(size_t i) { int64_t* const r[] = { &f0, &f1, &f2 }; return *r[i]; }
};
struct N4
{
    int64_t f0{}, f1{}, f2{}, f3{};
    CONFIGOR_BIND(configor::json::value, N4, REQUIRED(f0), OPTIONAL(f1, "1"), REQUIRED(f2), OPTIONAL(f3))
    enum { Count = 4 };
    static bool required(size_t i) { static const bool r[] = { 1, 0, 1, 0 }; return r[i]; }
    static const char* name(size_t i) { static const char* const r[] = { "f0", "1", "f2", "f3" }; return r[i]; }
    int64_t& field(size_t i) { int64_t* const r[] = { &f0, &f1, &f2, &f3 }; return *r[i]; }
};
struct N5
{
    int64_t f0{}, f1{}, f2{}, f3{}, f4{};
    CONFIGOR_BIND(configor::json::value, N5, REQUIRED(f0), REQUIRED(f1), OPTIONAL(f2, "f2.f2"), REQUIRED(f3), OPTIONAL(f4))
    enum { Count = 5 };
    static bool required(size_t i) { static const bool r[] = { 1, 1, 0, 1, 0 }; return r[i]; }
    static const char* name(size_t i) { static const char* const r[] = { "f0", "f1", "f2.f2", "f3", "f4" }; return r[i]; }
    int64_t& field(size_t i) { int64_t* const r[] = { &f0, &f1, &f2, &f3, &f4 }; return *r[i]; }
};
struct N6
{
    int64_t f0{}, f1{}, f2{}, f3{}, f4{}, f5{};
    CONFIGOR_BIND(configor::json::value, N6, OPTIONAL(f0, "F0"), REQUIRED(f1), REQUIRED(f2), OPTIONAL(f3, "name 3"), REQUIRED(f4), OPTIONAL(f5))
    enum { Count = 6 };
    static bool required(size_t i) { static const bool r[] = { 0, 1, 1, 0, 1, 0 }; return r[i]; }
    static const char* name(size_t i) { static const char* const r[] = { "F0", "f1", "f2", "name 3", "f4", "f5" }; return r[i]; }
    int64_t& field(size_t i) { int64_t* const r[] = { &f0, &f1, &f2, &f3, &f4, &f5 }; return *r[i]; }
};
struct N7
{
    int64_t f0{}, f1{}, f2{}, f3{}, f4{}, f5{}, f6{};
    CONFIGOR_BIND(configor::json::value, N7, REQUIRED(f0), OPTIONAL(f1, "f2x"), REQUIRED(f2), REQUIRED(f3), OPTIONAL(f4, "back\\4"), REQUIRED(f5), OPTIONAL(f6))
    enum { Count = 7 };
    static bool required(size_t i) { static const bool r[] = { 1, 0, 1, 1, 0, 1, 0 }; return r[i]; }
    static const char* name(size_t i) { static const char* const r[] = { "f0", "f2x", "f2", "f3", "back\\4", "f5", "f6" }; return r[i]; }
    int64_t& field(size_t i) { int64_t* const r[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6 }; return *r[i]; }
};
struct N8
{
    int64_t f0{}, f1{}, f2{}, f3{}, f4{}, f5{}, f6{}, f7{};
    CONFIGOR_BIND(configor::json::value, N8, OPTIONAL(f0), REQUIRED(f1), OPTIONAL(f2, "q\"2"), REQUIRED(f3), REQUIRED(f4), OPTIONAL(f5, "5"), REQUIRED(f6), OPTIONAL(f7))
    enum { Count = 8 };
    static bool required(size_t i) { static const bool r[] = { 0, 1, 0, 1, 1, 0, 1, 0 }; return r[i]; }
    static const char* name(size_t i) { static const char* const r[] = { "f0", "f1", "q\"2", "f3", "f4", "5", "f6", "f7" }; return r[i]; }
    int64_t& field(size_t i) { int64_t* const r[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7 }; return *r[i]; }
};
struct N9
{
    int64_t f0{}, f1{}, f2{}, f3{}, f4{}, f5{}, f6{}, f7{}, f8{};
    CONFIGOR_BIND(configor::json::value, N9, REQUIRED(f0, "name 0"), OPTIONAL(f1), REQUIRED(f2), OPTIONAL(f3, "tab\t3"), REQUIRED(f4), REQUIRED(f5), OPTIONAL(f6, "f6.f6"), REQUIRED(f7), OPTIONAL(f8))
    enum { Count = 9 };
    static bool required(size_t i) { static const bool r[] = { 1, 0, 1, 0, 1, 1, 0, 1, 0 }; return r[i]; }
    static const char* name(size_t i) { static const char* const r[] = { "name 0", "f1", "f2", "tab\t3", "f4", "f5", "f6.f6", "f7", "f8" }; return r[i]; }
    int64_t& field(size_t i) { int64_t* const r[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8 }; return *r[i]; }
};
struct N10
{
    int64_t f0{}, f1{}, f2{}, f3{}, f4{}, f5{}, f6{}, f7{}, f8{}, f9{};
    CONFIGOR_BIND(configor::json::value, N10, REQUIRED(f0), REQUIRED(f1, "back\\1"), REQUIRED(f2), REQUIRED(f3), REQUIRED(f4, "F4"), REQUIRED(f5), REQUIRED(f6), REQUIRED(f7, "name 7"), REQUIRED(f8), REQUIRED(f9))
    enum { Count = 10 };
    static bool required(size_t i) { static const bool r[] = { 1, 1, 1, 1, 1, 1, 1, 1, 1, 1 }; return r[i]; }
    static const char* name(size_t i) { static const char* const r[] = { "f0", "back\\1", "f2", "f3", "F4", "f5", "f6", "name 7", "f8", "f9" }; return r[i]; }
    int64_t& field(size_t i) { int64_t* const r[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9 }; return *r[i]; }
};
struct N11
{
    int64_t f0{}, f1{}, f2{}, f3{}, f4{}, f5{}, f6{}, f7{}, f8{}, f9{}, f10{};
    CONFIGOR_BIND(configor::json::value, N11, OPTIONAL(f0), OPTIONAL(f1), OPTIONAL(f2, "2"), OPTIONAL(f3), OPTIONAL(f4), REQUIRED(f5, "f6x"), OPTIONAL(f6), OPTIONAL(f7), OPTIONAL(f8, "back\\8"), OPTIONAL(f9), OPTIONAL(f10))
    enum { Count = 11 };
    static bool required(size_t i) { static const bool r[] = { 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0 }; return r[i]; }
    static const char* name(size_t i) { static const char* const r[] = { "f0", "f1", "2", "f3", "f4", "f6x", "f6", "f7", "back\\8", "f9", "f10" }; return r[i]; }
    int64_t& field(size_t i) { int64_t* const r[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10 }; return *r[i]; }
};
struct N12
{
    int64_t f0{}, f1{}, f2{}, f3{}, f4{}, f5{}, f6{}, f7{}, f8{}, f9{}, f10{}, f11{};
    CONFIGOR_BIND(configor::json::value, N12, REQUIRED(f0, "tab\t0"), OPTIONAL(f1), REQUIRED(f2), REQUIRED(f3, "f3.f3"), OPTIONAL(f4), REQUIRED(f5), OPTIONAL(f6, "q\"6"), REQUIRED(f7), REQUIRED(f8), OPTIONAL(f9, "9"), REQUIRED(f10), OPTIONAL(f11))
    enum { Count = 12 };
    static bool required(size_t i) { static const bool r[] = { 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0 }; return r[i]; }
    static const char* name(size_t i) { static const char* const r[] = { "tab\t0", "f1", "f2", "f3.f3", "f4", "f5", "q\"6", "f7", "f8", "9", "f10", "f11" }; return r[i]; }
    int64_t& field(size_t i) { int64_t* const r[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11 }; return *r[i]; }
};
struct N13
{
    int64_t f0{}, f1{}, f2{}, f3{}, f4{}, f5{}, f6{}, f7{}, f8{}, f9{}, f10{}, f11{}, f12{};
    CONFIGOR_BIND(configor::json::value, N13, OPTIONAL(f0), REQUIRED(f1, "F1"), OPTIONAL(f2), REQUIRED(f3), REQUIRED(f4, "name 4"), OPTIONAL(f5), REQUIRED(f6), OPTIONAL(f7, "tab\t7"), REQUIRED(f8), REQUIRED(f9), OPTIONAL(f10, "f10.f10"), REQUIRED(f11), OPTIONAL(f12))
    enum { Count = 13 };
    static bool required(size_t i) { static const bool r[] = { 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0 }; return r[i]; }
    static const char* name(size_t i) { static const char* const r[] = { "f0", "F1", "f2", "f3", "name 4", "f5", "f6", "tab\t7", "f8", "f9", "f10.f10", "f11", "f12" }; return r[i]; }
    int64_t& field(size_t i) { int64_t* const r[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12 }; return *r[i]; }
};
struct N14
{
    int64_t f0{}, f1{}, f2{}, f3{}, f4{}, f5{}, f6{}, f7{}, f8{}, f9{}, f10{}, f11{}, f12{}, f13{};
    CONFIGOR_BIND(configor::json::value, N14, REQUIRED(f0), OPTIONAL(f1), REQUIRED(f2, "f3x"), OPTIONAL(f3), REQUIRED(f4), REQUIRED(f5, "back\\5"), OPTIONAL(f6), REQUIRED(f7), OPTIONAL(f8, "F8"), REQUIRED(f9), REQUIRED(f10), OPTIONAL(f11, "name 11"), REQUIRED(f12), OPTIONAL(f13))
    enum { Count = 14 };
    static bool required(size_t i) { static const bool r[] = { 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0 }; return r[i]; }
    static const char* name(size_t i) { static const char* const r[] = { "f0", "f1", "f3x", "f3", "f4", "back\\5", "f6", "f7", "F8", "f9", "f10", "name 11", "f12", "f13" }; return r[i]; }
    int64_t& field(size_t i) { int64_t* const r[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13 }; return *r[i]; }
};
struct N15
{
    int64_t f0{}, f1{}, f2{}, f3{}, f4{}, f5{}, f6{}, f7{}, f8{}, f9{}, f10{}, f11{}, f12{}, f13{}, f14{};
    CONFIGOR_BIND(configor::json::value, N15, REQUIRED(f0, "f0.f0"), REQUIRED(f1), OPTIONAL(f2), REQUIRED(f3, "q\"3"), OPTIONAL(f4), REQUIRED(f5), REQUIRED(f6, "6"), OPTIONAL(f7), REQUIRED(f8), OPTIONAL(f9, "f10x"), REQUIRED(f10), REQUIRED(f11), OPTIONAL(f12, "back\\12"), REQUIRED(f13), OPTIONAL(f14))
    enum { Count = 15 };
    static bool required(size_t i) { static const bool r[] = { 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0 }; return r[i]; }
    static const char* name(size_t i) { static const char* const r[] = { "f0.f0", "f1", "f2", "q\"3", "f4", "f5", "6", "f7", "f8", "f10x", "f10", "f11", "back\\12", "f13", "f14" }; return r[i]; }
    int64_t& field(size_t i) { int64_t* const r[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14 }; return *r[i]; }
};
struct N16
{
    int64_t f0{}, f1{}, f2{}, f3{}, f4{}, f5{}, f6{}, f7{}, f8{}, f9{}, f10{}, f11{}, f12{}, f13{}, f14{}, f15{};
    CONFIGOR_BIND(configor::json::value, N16, OPTIONAL(f0), REQUIRED(f1, "name 1"), REQUIRED(f2), OPTIONAL(f3), REQUIRED(f4, "tab\t4"), OPTIONAL(f5), REQUIRED(f6), REQUIRED(f7, "f7.f7"), OPTIONAL(f8), REQUIRED(f9), OPTIONAL(f10, "q\"10"), REQUIRED(f11), REQUIRED(f12), OPTIONAL(f13, "13"), REQUIRED(f14), OPTIONAL(f15))
    enum { Count = 16 };
    static bool required(size_t i) { static const bool r[] = { 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0 }; return r[i]; }
    static const char* name(size_t i) { static const char* const r[] = { "f0", "name 1", "f2", "f3", "tab\t4", "f5", "f6", "f7.f7", "f8", "f9", "q\"10", "f11", "f12", "13", "f14", "f15" }; return r[i]; }
    int64_t& field(size_t i) { int64_t* const r[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15 }; return *r[i]; }
};
struct N17
{
    int64_t f0{}, f1{}, f2{}, f3{}, f4{}, f5{}, f6{}, f7{}, f8{}, f9{}, f10{}, f11{}, f12{}, f13{}, f14{}, f15{}, f16{};
    CONFIGOR_BIND(configor::json::value, N17, REQUIRED(f0), OPTIONAL(f1), REQUIRED(f2, "back\\2"), REQUIRED(f3), OPTIONAL(f4), REQUIRED(f5, "F5"), OPTIONAL(f6), REQUIRED(f7), REQUIRED(f8, "name 8"), OPTIONAL(f9), REQUIRED(f10), OPTIONAL(f11, "tab\t11"), REQUIRED(f12), REQUIRED(f13), OPTIONAL(f14, "f14.f14"), REQUIRED(f15), OPTIONAL(f16))
    enum { Count = 17 };
    static bool required(size_t i) { static const bool r[] = { 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0 }; return r[i]; }
    static const char* name(size_t i) { static const char* const r[] = { "f0", "f1", "back\\2", "f3", "f4", "F5", "f6", "f7", "name 8", "f9", "f10", "tab\t11", "f12", "f13", "f14.f14", "f15", "f16" }; return r[i]; }
    int64_t& field(size_t i) { int64_t* const r[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16 }; return *r[i]; }
};
struct N18
{
    int64_t f0{}, f1{}, f2{}, f3{}, f4{}, f5{}, f6{}, f7{}, f8{}, f9{}, f10{}, f11{}, f12{}, f13{}, f14{}, f15{}, f16{}, f17{};
    CONFIGOR_BIND(configor::json::value, N18, OPTIONAL(f0, "q\"0"), REQUIRED(f1), OPTIONAL(f2), REQUIRED(f3, "3"), REQUIRED(f4), OPTIONAL(f5), REQUIRED(f6, "f7x"), OPTIONAL(f7), REQUIRED(f8), REQUIRED(f9, "back\\9"), OPTIONAL(f10), REQUIRED(f11), OPTIONAL(f12, "F12"), REQUIRED(f13), REQUIRED(f14), OPTIONAL(f15, "name 15"), REQUIRED(f16), OPTIONAL(f17))
    enum { Count = 18 };
    static bool required(size_t i) { static const bool r[] = { 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0 }; return r[i]; }
    static const char* name(size_t i) { static const char* const r[] = { "q\"0", "f1", "f2", "3", "f4", "f5", "f7x", "f7", "f8", "back\\9", "f10", "f11", "F12", "f13", "f14", "name 15", "f16", "f17" }; return r[i]; }
    int64_t& field(size_t i) { int64_t* const r[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17 }; return *r[i]; }
};
struct N19
{
    int64_t f0{}, f1{}, f2{}, f3{}, f4{}, f5{}, f6{}, f7{}, f8{}, f9{}, f10{}, f11{}, f12{}, f13{}, f14{}, f15{}, f16{}, f17{}, f18{};
    CONFIGOR_BIND(configor::json::value, N19, REQUIRED(f0), OPTIONAL(f1, "tab\t1"), REQUIRED(f2), OPTIONAL(f3), REQUIRED(f4, "f4.f4"), REQUIRED(f5), OPTIONAL(f6), REQUIRED(f7, "q\"7"), OPTIONAL(f8), REQUIRED(f9), REQUIRED(f10, "10"), OPTIONAL(f11), REQUIRED(f12), OPTIONAL(f13, "f14x"), REQUIRED(f14), REQUIRED(f15), OPTIONAL(f16, "back\\16"), REQUIRED(f17), OPTIONAL(f18))
    enum { Count = 19 };
    static bool required(size_t i) { static const bool r[] = { 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0 }; return r[i]; }
    static const char* name(size_t i) { static const char* const r[] = { "f0", "tab\t1", "f2", "f3", "f4.f4", "f5", "f6", "q\"7", "f8", "f9", "10", "f11", "f12", "f14x", "f14", "f15", "back\\16", "f17", "f18" }; return r[i]; }
    int64_t& field(size_t i) { int64_t* const r[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18 }; return *r[i]; }
};
struct N20
{
    int64_t f0{}, f1{}, f2{}, f3{}, f4{}, f5{}, f6{}, f7{}, f8{}, f9{}, f10{}, f11{}, f12{}, f13{}, f14{}, f15{}, f16{}, f17{}, f18{}, f19{};
    CONFIGOR_BIND(configor::json::value, N20, REQUIRED(f0), REQUIRED(f1), REQUIRED(f2, "F2"), REQUIRED(f3), REQUIRED(f4), REQUIRED(f5, "name 5"), REQUIRED(f6), REQUIRED(f7), REQUIRED(f8, "tab\t8"), REQUIRED(f9), REQUIRED(f10), REQUIRED(f11, "f11.f11"), REQUIRED(f12), REQUIRED(f13), REQUIRED(f14, "q\"14"), REQUIRED(f15), REQUIRED(f16), REQUIRED(f17, "17"), REQUIRED(f18), REQUIRED(f19))
    enum { Count = 20 };
    static bool required(size_t i) { static const bool r[] = { 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1 }; return r[i]; }
    static const char* name(size_t i) { static const char* const r[] = { "f0", "f1", "F2", "f3", "f4", "name 5", "f6", "f7", "tab\t8", "f9", "f10", "f11.f11", "f12", "f13", "q\"14", "f15", "f16", "17", "f18", "f19" }; return r[i]; }
    int64_t& field(size_t i) { int64_t* const r[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19 }; return *r[i]; }
};
struct N21
{
    int64_t f0{}, f1{}, f2{}, f3{}, f4{}, f5{}, f6{}, f7{}, f8{}, f9{}, f10{}, f11{}, f12{}, f13{}, f14{}, f15{}, f16{}, f17{}, f18{}, f19{}, f20{};
    CONFIGOR_BIND(configor::json::value, N21, OPTIONAL(f0, "0"), OPTIONAL(f1), OPTIONAL(f2), OPTIONAL(f3, "f4x"), OPTIONAL(f4), OPTIONAL(f5), OPTIONAL(f6, "back\\6"), OPTIONAL(f7), OPTIONAL(f8), OPTIONAL(f9, "F9"), REQUIRED(f10), OPTIONAL(f11), OPTIONAL(f12, "name 12"), OPTIONAL(f13), OPTIONAL(f14), OPTIONAL(f15, "tab\t15"), OPTIONAL(f16), OPTIONAL(f17), OPTIONAL(f18, "f18.f18"), OPTIONAL(f19), OPTIONAL(f20))
    enum { Count = 21 };
    static bool required(size_t i) { static const bool r[] = { 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0 }; return r[i]; }
    static const char* name(size_t i) { static const char* const r[] = { "0", "f1", "f2", "f4x", "f4", "f5", "back\\6", "f7", "f8", "F9", "f10", "f11", "name 12", "f13", "f14", "tab\t15", "f16", "f17", "f18.f18", "f19", "f20" }; return r[i]; }
    int64_t& field(size_t i) { int64_t* const r[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20 }; return *r[i]; }
};
struct N22
{
    int64_t f0{}, f1{}, f2{}, f3{}, f4{}, f5{}, f6{}, f7{}, f8{}, f9{}, f10{}, f11{}, f12{}, f13{}, f14{}, f15{}, f16{}, f17{}, f18{}, f19{}, f20{}, f21{};
    CONFIGOR_BIND(configor::json::value, N22, REQUIRED(f0), OPTIONAL(f1, "f1.f1"), REQUIRED(f2), REQUIRED(f3), OPTIONAL(f4, "q\"4"), REQUIRED(f5), OPTIONAL(f6), REQUIRED(f7, "7"), REQUIRED(f8), OPTIONAL(f9), REQUIRED(f10, "f11x"), OPTIONAL(f11), REQUIRED(f12), REQUIRED(f13, "back\\13"), OPTIONAL(f14), REQUIRED(f15), OPTIONAL(f16, "F16"), REQUIRED(f17), REQUIRED(f18), OPTIONAL(f19, "name 19"), REQUIRED(f20), OPTIONAL(f21))
    enum { Count = 22 };
    static bool required(size_t i) { static const bool r[] = { 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0 }; return r[i]; }
    static const char* name(size_t i) { static const char* const r[] = { "f0", "f1.f1", "f2", "f3", "q\"4", "f5", "f6", "7", "f8", "f9", "f11x", "f11", "f12", "back\\13", "f14", "f15", "F16", "f17", "f18", "name 19", "f20", "f21" }; return r[i]; }
    int64_t& field(size_t i) { int64_t* const r[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21 }; return *r[i]; }
};
struct N23
{
    int64_t f0{}, f1{}, f2{}, f3{}, f4{}, f5{}, f6{}, f7{}, f8{}, f9{}, f10{}, f11{}, f12{}, f13{}, f14{}, f15{}, f16{}, f17{}, f18{}, f19{}, f20{}, f21{}, f22{};
    CONFIGOR_BIND(configor::json::value, N23, OPTIONAL(f0), REQUIRED(f1), OPTIONAL(f2, "name 2"), REQUIRED(f3), REQUIRED(f4), OPTIONAL(f5, "tab\t5"), REQUIRED(f6), OPTIONAL(f7), REQUIRED(f8, "f8.f8"), REQUIRED(f9), OPTIONAL(f10), REQUIRED(f11, "q\"11"), OPTIONAL(f12), REQUIRED(f13), REQUIRED(f14, "14"), OPTIONAL(f15), REQUIRED(f16), OPTIONAL(f17, "f18x"), REQUIRED(f18), REQUIRED(f19), OPTIONAL(f20, "back\\20"), REQUIRED(f21), OPTIONAL(f22))
    enum { Count = 23 };
    static bool required(size_t i) { static const bool r[] = { 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0 }; return r[i]; }
    static const char* name(size_t i) { static const char* const r[] = { "f0", "f1", "name 2", "f3", "f4", "tab\t5", "f6", "f7", "f8.f8", "f9", "f10", "q\"11", "f12", "f13", "14", "f15", "f16", "f18x", "f18", "f19", "back\\20", "f21", "f22" }; return r[i]; }
    int64_t& field(size_t i) { int64_t* const r[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22 }; return *r[i]; }
};
struct N24
{
    int64_t f0{}, f1{}, f2{}, f3{}, f4{}, f5{}, f6{}, f7{}, f8{}, f9{}, f10{}, f11{}, f12{}, f13{}, f14{}, f15{}, f16{}, f17{}, f18{}, f19{}, f20{}, f21{}, f22{}, f23{};
    CONFIGOR_BIND(configor::json::value, N24, REQUIRED(f0, "f1x"), OPTIONAL(f1), REQUIRED(f2), OPTIONAL(f3, "back\\3"), REQUIRED(f4), REQUIRED(f5), OPTIONAL(f6, "F6"), REQUIRED(f7), OPTIONAL(f8), REQUIRED(f9, "name 9"), REQUIRED(f10), OPTIONAL(f11), REQUIRED(f12, "tab\t12"), OPTIONAL(f13), REQUIRED(f14), REQUIRED(f15, "f15.f15"), OPTIONAL(f16), REQUIRED(f17), OPTIONAL(f18, "q\"18"), REQUIRED(f19), REQUIRED(f20), OPTIONAL(f21, "21"), REQUIRED(f22), OPTIONAL(f23))
    enum { Count = 24 };
    static bool required(size_t i) { static const bool r[] = { 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0 }; return r[i]; }
    static const char* name(size_t i) { static const char* const r[] = { "f1x", "f1", "f2", "back\\3", "f4", "f5", "F6", "f7", "f8", "name 9", "f10", "f11", "tab\t12", "f13", "f14", "f15.f15", "f16", "f17", "q\"18", "f19", "f20", "21", "f22", "f23" }; return r[i]; }
    int64_t& field(size_t i) { int64_t* const r[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23 }; return *r[i]; }
};
struct N25
{
    int64_t f0{}, f1{}, f2{}, f3{}, f4{}, f5{}, f6{}, f7{}, f8{}, f9{}, f10{}, f11{}, f12{}, f13{}, f14{}, f15{}, f16{}, f17{}, f18{}, f19{}, f20{}, f21{}, f22{}, f23{}, f24{};
    CONFIGOR_BIND(configor::json::value, N25, REQUIRED(f0), REQUIRED(f1, "q\"1"), OPTIONAL(f2), REQUIRED(f3), OPTIONAL(f4, "4"), REQUIRED(f5), REQUIRED(f6), OPTIONAL(f7, "f8x"), REQUIRED(f8), OPTIONAL(f9), REQUIRED(f10, "back\\10"), REQUIRED(f11), OPTIONAL(f12), REQUIRED(f13, "F13"), OPTIONAL(f14), REQUIRED(f15), REQUIRED(f16, "name 16"), OPTIONAL(f17), REQUIRED(f18), OPTIONAL(f19, "tab\t19"), REQUIRED(f20), REQUIRED(f21), OPTIONAL(f22, "f22.f22"), REQUIRED(f23), OPTIONAL(f24))
    enum { Count = 25 };
    static bool required(size_t i) { static const bool r[] = { 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0 }; return r[i]; }
    static const char* name(size_t i) { static const char* const r[] = { "f0", "q\"1", "f2", "f3", "4", "f5", "f6", "f8x", "f8", "f9", "back\\10", "f11", "f12", "F13", "f14", "f15", "name 16", "f17", "f18", "tab\t19", "f20", "f21", "f22.f22", "f23", "f24" }; return r[i]; }
    int64_t& field(size_t i) { int64_t* const r[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24 }; return *r[i]; }
};
struct N26
{
    int64_t f0{}, f1{}, f2{}, f3{}, f4{}, f5{}, f6{}, f7{}, f8{}, f9{}, f10{}, f11{}, f12{}, f13{}, f14{}, f15{}, f16{}, f17{}, f18{}, f19{}, f20{}, f21{}, f22{}, f23{}, f24{}, f25{};
    CONFIGOR_BIND(configor::json::value, N26, OPTIONAL(f0), REQUIRED(f1), REQUIRED(f2, "tab\t2"), OPTIONAL(f3), REQUIRED(f4), OPTIONAL(f5, "f5.f5"), REQUIRED(f6), REQUIRED(f7), OPTIONAL(f8, "q\"8"), REQUIRED(f9), OPTIONAL(f10), REQUIRED(f11, "11"), REQUIRED(f12), OPTIONAL(f13), REQUIRED(f14, "f15x"), OPTIONAL(f15), REQUIRED(f16), REQUIRED(f17, "back\\17"), OPTIONAL(f18), REQUIRED(f19), OPTIONAL(f20, "F20"), REQUIRED(f21), REQUIRED(f22), OPTIONAL(f23, "name 23"), REQUIRED(f24), OPTIONAL(f25))
    enum { Count = 26 };
    static bool required(size_t i) { static const bool r[] = { 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0 }; return r[i]; }
    static const char* name(size_t i) { static const char* const r[] = { "f0", "f1", "tab\t2", "f3", "f4", "f5.f5", "f6", "f7", "q\"8", "f9", "f10", "11", "f12", "f13", "f15x", "f15", "f16", "back\\17", "f18", "f19", "F20", "f21", "f22", "name 23", "f24", "f25" }; return r[i]; }
    int64_t& field(size_t i) { int64_t* const r[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25 }; return *r[i]; }
};
struct N27
{
    int64_t f0{}, f1{}, f2{}, f3{}, f4{}, f5{}, f6{}, f7{}, f8{}, f9{}, f10{}, f11{}, f12{}, f13{}, f14{}, f15{}, f16{}, f17{}, f18{}, f19{}, f20{}, f21{}, f22{}, f23{}, f24{}, f25{}, f26{};
    CONFIGOR_BIND(configor::json::value, N27, REQUIRED(f0, "back\\0"), OPTIONAL(f1), REQUIRED(f2), REQUIRED(f3, "F3"), OPTIONAL(f4), REQUIRED(f5), OPTIONAL(f6, "name 6"), REQUIRED(f7), REQUIRED(f8), OPTIONAL(f9, "tab\t9"), REQUIRED(f10), OPTIONAL(f11), REQUIRED(f12, "f12.f12"), REQUIRED(f13), OPTIONAL(f14), REQUIRED(f15, "q\"15"), OPTIONAL(f16), REQUIRED(f17), REQUIRED(f18, "18"), OPTIONAL(f19), REQUIRED(f20), OPTIONAL(f21, "f22x"), REQUIRED(f22), REQUIRED(f23), OPTIONAL(f24, "back\\24"), REQUIRED(f25), OPTIONAL(f26))
    enum { Count = 27 };
    static bool required(size_t i) { static const bool r[] = { 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0 }; return r[i]; }
    static const char* name(size_t i) { static const char* const r[] = { "back\\0", "f1", "f2", "F3", "f4", "f5", "name 6", "f7", "f8", "tab\t9", "f10", "f11", "f12.f12", "f13", "f14", "q\"15", "f16", "f17", "18", "f19", "f20", "f22x", "f22", "f23", "back\\24", "f25", "f26" }; return r[i]; }
    int64_t& field(size_t i) { int64_t* const r[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26 }; return *r[i]; }
};
struct N28
{
    int64_t f0{}, f1{}, f2{}, f3{}, f4{}, f5{}, f6{}, f7{}, f8{}, f9{}, f10{}, f11{}, f12{}, f13{}, f14{}, f15{}, f16{}, f17{}, f18{}, f19{}, f20{}, f21{}, f22{}, f23{}, f24{}, f25{}, f26{}, f27{};
    CONFIGOR_BIND(configor::json::value, N28, OPTIONAL(f0), REQUIRED(f1, "1"), OPTIONAL(f2), REQUIRED(f3), REQUIRED(f4, "f5x"), OPTIONAL(f5), REQUIRED(f6), OPTIONAL(f7, "back\\7"), REQUIRED(f8), REQUIRED(f9), OPTIONAL(f10, "F10"), REQUIRED(f11), OPTIONAL(f12), REQUIRED(f13, "name 13"), REQUIRED(f14), OPTIONAL(f15), REQUIRED(f16, "tab\t16"), OPTIONAL(f17), REQUIRED(f18), REQUIRED(f19, "f19.f19"), OPTIONAL(f20), REQUIRED(f21), OPTIONAL(f22, "q\"22"), REQUIRED(f23), REQUIRED(f24), OPTIONAL(f25, "25"), REQUIRED(f26), OPTIONAL(f27))
    enum { Count = 28 };
    static bool required(size_t i) { static const bool r[] = { 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0 }; return r[i]; }
    static const char* name(size_t i) { static const char* const r[] = { "f0", "1", "f2", "f3", "f5x", "f5", "f6", "back\\7", "f8", "f9", "F10", "f11", "f12", "name 13", "f14", "f15", "tab\t16", "f17", "f18", "f19.f19", "f20", "f21", "q\"22", "f23", "f24", "25", "f26", "f27" }; return r[i]; }
    int64_t& field(size_t i) { int64_t* const r[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27 }; return *r[i]; }
};
struct N29
{
    int64_t f0{}, f1{}, f2{}, f3{}, f4{}, f5{}, f6{}, f7{}, f8{}, f9{}, f10{}, f11{}, f12{}, f13{}, f14{}, f15{}, f16{}, f17{}, f18{}, f19{}, f20{}, f21{}, f22{}, f23{}, f24{}, f25{}, f26{}, f27{}, f28{};
    CONFIGOR_BIND(configor::json::value, N29, REQUIRED(f0), OPTIONAL(f1), REQUIRED(f2, "f2.f2"), OPTIONAL(f3), REQUIRED(f4), REQUIRED(f5, "q\"5"), OPTIONAL(f6), REQUIRED(f7), OPTIONAL(f8, "8"), REQUIRED(f9), REQUIRED(f10), OPTIONAL(f11, "f12x"), REQUIRED(f12), OPTIONAL(f13), REQUIRED(f14, "back\\14"), REQUIRED(f15), OPTIONAL(f16), REQUIRED(f17, "F17"), OPTIONAL(f18), REQUIRED(f19), REQUIRED(f20, "name 20"), OPTIONAL(f21), REQUIRED(f22), OPTIONAL(f23, "tab\t23"), REQUIRED(f24), REQUIRED(f25), OPTIONAL(f26, "f26.f26"), REQUIRED(f27), OPTIONAL(f28))
    enum { Count = 29 };
    static bool required(size_t i) { static const bool r[] = { 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0 }; return r[i]; }
    static const char* name(size_t i) { static const char* const r[] = { "f0", "f1", "f2.f2", "f3", "f4", "q\"5", "f6", "f7", "8", "f9", "f10", "f12x", "f12", "f13", "back\\14", "f15", "f16", "F17", "f18", "f19", "name 20", "f21", "f22", "tab\t23", "f24", "f25", "f26.f26", "f27", "f28" }; return r[i]; }
    int64_t& field(size_t i) { int64_t* const r[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28 }; return *r[i]; }
};
struct N30
{
    int64_t f0{}, f1{}, f2{}, f3{}, f4{}, f5{}, f6{}, f7{}, f8{}, f9{}, f10{}, f11{}, f12{}, f13{}, f14{}, f15{}, f16{}, f17{}, f18{}, f19{}, f20{}, f21{}, f22{}, f23{}, f24{}, f25{}, f26{}, f27{}, f28{}, f29{};
    CONFIGOR_BIND(configor::json::value, N30, REQUIRED(f0, "F0"), REQUIRED(f1), REQUIRED(f2), REQUIRED(f3, "name 3"), REQUIRED(f4), REQUIRED(f5), REQUIRED(f6, "tab\t6"), REQUIRED(f7), REQUIRED(f8), REQUIRED(f9, "f9.f9"), REQUIRED(f10), REQUIRED(f11), REQUIRED(f12, "q\"12"), REQUIRED(f13), REQUIRED(f14), REQUIRED(f15, "15"), REQUIRED(f16), REQUIRED(f17), REQUIRED(f18, "f19x"), REQUIRED(f19), REQUIRED(f20), REQUIRED(f21, "back\\21"), REQUIRED(f22), REQUIRED(f23), REQUIRED(f24, "F24"), REQUIRED(f25), REQUIRED(f26), REQUIRED(f27, "name 27"), REQUIRED(f28), REQUIRED(f29))
    enum { Count = 30 };
    static bool required(size_t i) { static const bool r[] = { 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1 }; return r[i]; }
    static const char* name(size_t i) { static const char* const r[] = { "F0", "f1", "f2", "name 3", "f4", "f5", "tab\t6", "f7", "f8", "f9.f9", "f10", "f11", "q\"12", "f13", "f14", "15", "f16", "f17", "f19x", "f19", "f20", "back\\21", "f22", "f23", "F24", "f25", "f26", "name 27", "f28", "f29" }; return r[i]; }
    int64_t& field(size_t i) { int64_t* const r[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29 }; return *r[i]; }
};
struct N31
{
    int64_t f0{}, f1{}, f2{}, f3{}, f4{}, f5{}, f6{}, f7{}, f8{}, f9{}, f10{}, f11{}, f12{}, f13{}, f14{}, f15{}, f16{}, f17{}, f18{}, f19{}, f20{}, f21{}, f22{}, f23{}, f24{}, f25{}, f26{}, f27{}, f28{}, f29{}, f30{};
    CONFIGOR_BIND(configor::json::value, N31, OPTIONAL(f0), OPTIONAL(f1, "f2x"), OPTIONAL(f2), OPTIONAL(f3), OPTIONAL(f4, "back\\4"), OPTIONAL(f5), OPTIONAL(f6), OPTIONAL(f7, "F7"), OPTIONAL(f8), OPTIONAL(f9), OPTIONAL(f10, "name 10"), OPTIONAL(f11), OPTIONAL(f12), OPTIONAL(f13, "tab\t13"), OPTIONAL(f14), REQUIRED(f15), OPTIONAL(f16, "f16.f16"), OPTIONAL(f17), OPTIONAL(f18), OPTIONAL(f19, "q\"19"), OPTIONAL(f20), OPTIONAL(f21), OPTIONAL(f22, "22"), OPTIONAL(f23), OPTIONAL(f24), OPTIONAL(f25, "f26x"), OPTIONAL(f26), OPTIONAL(f27), OPTIONAL(f28, "back\\28"), OPTIONAL(f29), OPTIONAL(f30))
    enum { Count = 31 };
    static bool required(size_t i) { static const bool r[] = { 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0 }; return r[i]; }
    static const char* name(size_t i) { static const char* const r[] = { "f0", "f2x", "f2", "f3", "back\\4", "f5", "f6", "F7", "f8", "f9", "name 10", "f11", "f12", "tab\t13", "f14", "f15", "f16.f16", "f17", "f18", "q\"19", "f20", "f21", "22", "f23", "f24", "f26x", "f26", "f27", "back\\28", "f29", "f30" }; return r[i]; }
    int64_t& field(size_t i) { int64_t* const r[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30 }; return *r[i]; }
};
struct N32
{
    int64_t f0{}, f1{}, f2{}, f3{}, f4{}, f5{}, f6{}, f7{}, f8{}, f9{}, f10{}, f11{}, f12{}, f13{}, f14{}, f15{}, f16{}, f17{}, f18{}, f19{}, f20{}, f21{}, f22{}, f23{}, f24{}, f25{}, f26{}, f27{}, f28{}, f29{}, f30{}, f31{};
    CONFIGOR_BIND(configor::json::value, N32, REQUIRED(f0), OPTIONAL(f1), REQUIRED(f2, "q\"2"), REQUIRED(f3), OPTIONAL(f4), REQUIRED(f5, "5"), OPTIONAL(f6), REQUIRED(f7), REQUIRED(f8, "f9x"), OPTIONAL(f9), REQUIRED(f10), OPTIONAL(f11, "back\\11"), REQUIRED(f12), REQUIRED(f13), OPTIONAL(f14, "F14"), REQUIRED(f15), OPTIONAL(f16), REQUIRED(f17, "name 17"), REQUIRED(f18), OPTIONAL(f19), REQUIRED(f20, "tab\t20"), OPTIONAL(f21), REQUIRED(f22), REQUIRED(f23, "f23.f23"), OPTIONAL(f24), REQUIRED(f25), OPTIONAL(f26, "q\"26"), REQUIRED(f27), REQUIRED(f28), OPTIONAL(f29, "29"), REQUIRED(f30), OPTIONAL(f31))
    enum { Count = 32 };
    static bool required(size_t i) { static const bool r[] = { 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0 }; return r[i]; }
    static const char* name(size_t i) { static const char* const r[] = { "f0", "f1", "q\"2", "f3", "f4", "5", "f6", "f7", "f9x", "f9", "f10", "back\\11", "f12", "f13", "F14", "f15", "f16", "name 17", "f18", "f19", "tab\t20", "f21", "f22", "f23.f23", "f24", "f25", "q\"26", "f27", "f28", "29", "f30", "f31" }; return r[i]; }
    int64_t& field(size_t i) { int64_t* const r[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30, &f31 }; return *r[i]; }
};
struct N33
{
    int64_t f0{}, f1{}, f2{}, f3{}, f4{}, f5{}, f6{}, f7{}, f8{}, f9{}, f10{}, f11{}, f12{}, f13{}, f14{}, f15{}, f16{}, f17{}, f18{}, f19{}, f20{}, f21{}, f22{}, f23{}, f24{}, f25{}, f26{}, f27{}, f28{}, f29{}, f30{}, f31{}, f32{};
    CONFIGOR_BIND(configor::json::value, N33, OPTIONAL(f0, "name 0"), REQUIRED(f1), OPTIONAL(f2), REQUIRED(f3, "tab\t3"), REQUIRED(f4), OPTIONAL(f5), REQUIRED(f6, "f6.f6"), OPTIONAL(f7), REQUIRED(f8), REQUIRED(f9, "q\"9"), OPTIONAL(f10), REQUIRED(f11), OPTIONAL(f12, "12"), REQUIRED(f13), REQUIRED(f14), OPTIONAL(f15, "f16x"), REQUIRED(f16), OPTIONAL(f17), REQUIRED(f18, "back\\18"), REQUIRED(f19), OPTIONAL(f20), REQUIRED(f21, "F21"), OPTIONAL(f22), REQUIRED(f23), REQUIRED(f24, "name 24"), OPTIONAL(f25), REQUIRED(f26), OPTIONAL(f27, "tab\t27"), REQUIRED(f28), REQUIRED(f29), OPTIONAL(f30, "f30.f30"), REQUIRED(f31), OPTIONAL(f32))
    enum { Count = 33 };
    static bool required(size_t i) { static const bool r[] = { 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0 }; return r[i]; }
    static const char* name(size_t i) { static const char* const r[] = { "name 0", "f1", "f2", "tab\t3", "f4", "f5", "f6.f6", "f7", "f8", "q\"9", "f10", "f11", "12", "f13", "f14", "f16x", "f16", "f17", "back\\18", "f19", "f20", "F21", "f22", "f23", "name 24", "f25", "f26", "tab\t27", "f28", "f29", "f30.f30", "f31", "f32" }; return r[i]; }
    int64_t& field(size_t i) { int64_t* const r[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30, &f31, &f32 }; return *r[i]; }
};
struct N34
{
    int64_t f0{}, f1{}, f2{}, f3{}, f4{}, f5{}, f6{}, f7{}, f8{}, f9{}, f10{}, f11{}, f12{}, f13{}, f14{}, f15{}, f16{}, f17{}, f18{}, f19{}, f20{}, f21{}, f22{}, f23{}, f24{}, f25{}, f26{}, f27{}, f28{}, f29{}, f30{}, f31{}, f32{}, f33{};
    CONFIGOR_BIND(configor::json::value, N34, REQUIRED(f0), OPTIONAL(f1, "back\\1"), REQUIRED(f2), OPTIONAL(f3), REQUIRED(f4, "F4"), REQUIRED(f5), OPTIONAL(f6), REQUIRED(f7, "name 7"), OPTIONAL(f8), REQUIRED(f9), REQUIRED(f10, "tab\t10"), OPTIONAL(f11), REQUIRED(f12), OPTIONAL(f13, "f13.f13"), REQUIRED(f14), REQUIRED(f15), OPTIONAL(f16, "q\"16"), REQUIRED(f17), OPTIONAL(f18), REQUIRED(f19, "19"), REQUIRED(f20), OPTIONAL(f21), REQUIRED(f22, "f23x"), OPTIONAL(f23), REQUIRED(f24), REQUIRED(f25, "back\\25"), OPTIONAL(f26), REQUIRED(f27), OPTIONAL(f28, "F28"), REQUIRED(f29), REQUIRED(f30), OPTIONAL(f31, "name 31"), REQUIRED(f32), OPTIONAL(f33))
    enum { Count = 34 };
    static bool required(size_t i) { static const bool r[] = { 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0 }; return r[i]; }
    static const char* name(size_t i) { static const char* const r[] = { "f0", "back\\1", "f2", "f3", "F4", "f5", "f6", "name 7", "f8", "f9", "tab\t10", "f11", "f12", "f13.f13", "f14", "f15", "q\"16", "f17", "f18", "19", "f20", "f21", "f23x", "f23", "f24", "back\\25", "f26", "f27", "F28", "f29", "f30", "name 31", "f32", "f33" }; return r[i]; }
    int64_t& field(size_t i) { int64_t* const r[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30, &f31, &f32, &f33 }; return *r[i]; }
};
struct N35
{
    int64_t f0{}, f1{}, f2{}, f3{}, f4{}, f5{}, f6{}, f7{}, f8{}, f9{}, f10{}, f11{}, f12{}, f13{}, f14{}, f15{}, f16{}, f17{}, f18{}, f19{}, f20{}, f21{}, f22{}, f23{}, f24{}, f25{}, f26{}, f27{}, f28{}, f29{}, f30{}, f31{}, f32{}, f33{}, f34{};
    CONFIGOR_BIND(configor::json::value, N35, REQUIRED(f0), REQUIRED(f1), OPTIONAL(f2, "2"), REQUIRED(f3), OPTIONAL(f4), REQUIRED(f5, "f6x"), REQUIRED(f6), OPTIONAL(f7), REQUIRED(f8, "back\\8"), OPTIONAL(f9), REQUIRED(f10), REQUIRED(f11, "F11"), OPTIONAL(f12), REQUIRED(f13), OPTIONAL(f14, "name 14"), REQUIRED(f15), REQUIRED(f16), OPTIONAL(f17, "tab\t17"), REQUIRED(f18), OPTIONAL(f19), REQUIRED(f20, "f20.f20"), REQUIRED(f21), OPTIONAL(f22), REQUIRED(f23, "q\"23"), OPTIONAL(f24), REQUIRED(f25), REQUIRED(f26, "26"), OPTIONAL(f27), REQUIRED(f28), OPTIONAL(f29, "f30x"), REQUIRED(f30), REQUIRED(f31), OPTIONAL(f32, "back\\32"), REQUIRED(f33), OPTIONAL(f34))
    enum { Count = 35 };
    static bool required(size_t i) { static const bool r[] = { 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0 }; return r[i]; }
    static const char* name(size_t i) { static const char* const r[] = { "f0", "f1", "2", "f3", "f4", "f6x", "f6", "f7", "back\\8", "f9", "f10", "F11", "f12", "f13", "name 14", "f15", "f16", "tab\t17", "f18", "f19", "f20.f20", "f21", "f22", "q\"23", "f24", "f25", "26", "f27", "f28", "f30x", "f30", "f31", "back\\32", "f33", "f34" }; return r[i]; }
    int64_t& field(size_t i) { int64_t* const r[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30, &f31, &f32, &f33, &f34 }; return *r[i]; }
};
struct N36
{
    int64_t f0{}, f1{}, f2{}, f3{}, f4{}, f5{}, f6{}, f7{}, f8{}, f9{}, f10{}, f11{}, f12{}, f13{}, f14{}, f15{}, f16{}, f17{}, f18{}, f19{}, f20{}, f21{}, f22{}, f23{}, f24{}, f25{}, f26{}, f27{}, f28{}, f29{}, f30{}, f31{}, f32{}, f33{}, f34{}, f35{};
    CONFIGOR_BIND(configor::json::value, N36, OPTIONAL(f0, "tab\t0"), REQUIRED(f1), REQUIRED(f2), OPTIONAL(f3, "f3.f3"), REQUIRED(f4), OPTIONAL(f5), REQUIRED(f6, "q\"6"), REQUIRED(f7), OPTIONAL(f8), REQUIRED(f9, "9"), OPTIONAL(f10), REQUIRED(f11), REQUIRED(f12, "f13x"), OPTIONAL(f13), REQUIRED(f14), OPTIONAL(f15, "back\\15"), REQUIRED(f16), REQUIRED(f17), OPTIONAL(f18, "F18"), REQUIRED(f19), OPTIONAL(f20), REQUIRED(f21, "name 21"), REQUIRED(f22), OPTIONAL(f23), REQUIRED(f24, "tab\t24"), OPTIONAL(f25), REQUIRED(f26), REQUIRED(f27, "f27.f27"), OPTIONAL(f28), REQUIRED(f29), OPTIONAL(f30, "q\"30"), REQUIRED(f31), REQUIRED(f32), OPTIONAL(f33, "33"), REQUIRED(f34), OPTIONAL(f35))
    enum { Count = 36 };
    static bool required(size_t i) { static const bool r[] = { 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0 }; return r[i]; }
    static const char* name(size_t i) { static const char* const r[] = { "tab\t0", "f1", "f2", "f3.f3", "f4", "f5", "q\"6", "f7", "f8", "9", "f10", "f11", "f13x", "f13", "f14", "back\\15", "f16", "f17", "F18", "f19", "f20", "name 21", "f22", "f23", "tab\t24", "f25", "f26", "f27.f27", "f28", "f29", "q\"30", "f31", "f32", "33", "f34", "f35" }; return r[i]; }
    int64_t& field(size_t i) { int64_t* const r[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30, &f31, &f32, &f33, &f34, &f35 }; return *r[i]; }
};
struct N37
{
    int64_t f0{}, f1{}, f2{}, f3{}, f4{}, f5{}, f6{}, f7{}, f8{}, f9{}, f10{}, f11{}, f12{}, f13{}, f14{}, f15{}, f16{}, f17{}, f18{}, f19{}, f20{}, f21{}, f22{}, f23{}, f24{}, f25{}, f26{}, f27{}, f28{}, f29{}, f30{}, f31{}, f32{}, f33{}, f34{}, f35{}, f36{};
    CONFIGOR_BIND(configor::json::value, N37, REQUIRED(f0), OPTIONAL(f1, "F1"), REQUIRED(f2), REQUIRED(f3), OPTIONAL(f4, "name 4"), REQUIRED(f5), OPTIONAL(f6), REQUIRED(f7, "tab\t7"), REQUIRED(f8), OPTIONAL(f9), REQUIRED(f10, "f10.f10"), OPTIONAL(f11), REQUIRED(f12), REQUIRED(f13, "q\"13"), OPTIONAL(f14), REQUIRED(f15), OPTIONAL(f16, "16"), REQUIRED(f17), REQUIRED(f18), OPTIONAL(f19, "f20x"), REQUIRED(f20), OPTIONAL(f21), REQUIRED(f22, "back\\22"), REQUIRED(f23), OPTIONAL(f24), REQUIRED(f25, "F25"), OPTIONAL(f26), REQUIRED(f27), REQUIRED(f28, "name 28"), OPTIONAL(f29), REQUIRED(f30), OPTIONAL(f31, "tab\t31"), REQUIRED(f32), REQUIRED(f33), OPTIONAL(f34, "f34.f34"), REQUIRED(f35), OPTIONAL(f36))
    enum { Count = 37 };
    static bool required(size_t i) { static const bool r[] = { 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0 }; return r[i]; }
    static const char* name(size_t i) { static const char* const r[] = { "f0", "F1", "f2", "f3", "name 4", "f5", "f6", "tab\t7", "f8", "f9", "f10.f10", "f11", "f12", "q\"13", "f14", "f15", "16", "f17", "f18", "f20x", "f20", "f21", "back\\22", "f23", "f24", "F25", "f26", "f27", "name 28", "f29", "f30", "tab\t31", "f32", "f33", "f34.f34", "f35", "f36" }; return r[i]; }
    int64_t& field(size_t i) { int64_t* const r[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30, &f31, &f32, &f33, &f34, &f35, &f36 }; return *r[i]; }
};
struct N38
{
    int64_t f0{}, f1{}, f2{}, f3{}, f4{}, f5{}, f6{}, f7{}, f8{}, f9{}, f10{}, f11{}, f12{}, f13{}, f14{}, f15{}, f16{}, f17{}, f18{}, f19{}, f20{}, f21{}, f22{}, f23{}, f24{}, f25{}, f26{}, f27{}, f28{}, f29{}, f30{}, f31{}, f32{}, f33{}, f34{}, f35{}, f36{}, f37{};
    CONFIGOR_BIND(configor::json::value, N38, OPTIONAL(f0), REQUIRED(f1), OPTIONAL(f2, "f3x"), REQUIRED(f3), REQUIRED(f4), OPTIONAL(f5, "back\\5"), REQUIRED(f6), OPTIONAL(f7), REQUIRED(f8, "F8"), REQUIRED(f9), OPTIONAL(f10), REQUIRED(f11, "name 11"), OPTIONAL(f12), REQUIRED(f13), REQUIRED(f14, "tab\t14"), OPTIONAL(f15), REQUIRED(f16), OPTIONAL(f17, "f17.f17"), REQUIRED(f18), REQUIRED(f19), OPTIONAL(f20, "q\"20"), REQUIRED(f21), OPTIONAL(f22), REQUIRED(f23, "23"), REQUIRED(f24), OPTIONAL(f25), REQUIRED(f26, "f27x"), OPTIONAL(f27), REQUIRED(f28), REQUIRED(f29, "back\\29"), OPTIONAL(f30), REQUIRED(f31), OPTIONAL(f32, "F32"), REQUIRED(f33), REQUIRED(f34), OPTIONAL(f35, "name 35"), REQUIRED(f36), OPTIONAL(f37))
    enum { Count = 38 };
    static bool required(size_t i) { static const bool r[] = { 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0 }; return r[i]; }
    static const char* name(size_t i) { static const char* const r[] = { "f0", "f1", "f3x", "f3", "f4", "back\\5", "f6", "f7", "F8", "f9", "f10", "name 11", "f12", "f13", "tab\t14", "f15", "f16", "f17.f17", "f18", "f19", "q\"20", "f21", "f22", "23", "f24", "f25", "f27x", "f27", "f28", "back\\29", "f30", "f31", "F32", "f33", "f34", "name 35", "f36", "f37" }; return r[i]; }
    int64_t& field(size_t i) { int64_t* const r[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30, &f31, &f32, &f33, &f34, &f35, &f36, &f37 }; return *r[i]; }
};
struct N39
{
    int64_t f0{}, f1{}, f2{}, f3{}, f4{}, f5{}, f6{}, f7{}, f8{}, f9{}, f10{}, f11{}, f12{}, f13{}, f14{}, f15{}, f16{}, f17{}, f18{}, f19{}, f20{}, f21{}, f22{}, f23{}, f24{}, f25{}, f26{}, f27{}, f28{}, f29{}, f30{}, f31{}, f32{}, f33{}, f34{}, f35{}, f36{}, f37{}, f38{};
    CONFIGOR_BIND(configor::json::value, N39, REQUIRED(f0, "f0.f0"), OPTIONAL(f1), REQUIRED(f2), OPTIONAL(f3, "q\"3"), REQUIRED(f4), REQUIRED(f5), OPTIONAL(f6, "6"), REQUIRED(f7), OPTIONAL(f8), REQUIRED(f9, "f10x"), REQUIRED(f10), OPTIONAL(f11), REQUIRED(f12, "back\\12"), OPTIONAL(f13), REQUIRED(f14), REQUIRED(f15, "F15"), OPTIONAL(f16), REQUIRED(f17), OPTIONAL(f18, "name 18"), REQUIRED(f19), REQUIRED(f20), OPTIONAL(f21, "tab\t21"), REQUIRED(f22), OPTIONAL(f23), REQUIRED(f24, "f24.f24"), REQUIRED(f25), OPTIONAL(f26), REQUIRED(f27, "q\"27"), OPTIONAL(f28), REQUIRED(f29), REQUIRED(f30, "30"), OPTIONAL(f31), REQUIRED(f32), OPTIONAL(f33, "f34x"), REQUIRED(f34), REQUIRED(f35), OPTIONAL(f36, "back\\36"), REQUIRED(f37), OPTIONAL(f38))
    enum { Count = 39 };
    static bool required(size_t i) { static const bool r[] = { 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0 }; return r[i]; }
    static const char* name(size_t i) { static const char* const r[] = { "f0.f0", "f1", "f2", "q\"3", "f4", "f5", "6", "f7", "f8", "f10x", "f10", "f11", "back\\12", "f13", "f14", "F15", "f16", "f17", "name 18", "f19", "f20", "tab\t21", "f22", "f23", "f24.f24", "f25", "f26", "q\"27", "f28", "f29", "30", "f31", "f32", "f34x", "f34", "f35", "back\\36", "f37", "f38" }; return r[i]; }
    int64_t& field(size_t i) { int64_t* const r[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30, &f31, &f32, &f33, &f34, &f35, &f36, &f37, &f38 }; return *r[i]; }
};
struct N40
{
    int64_t f0{}, f1{}, f2{}, f3{}, f4{}, f5{}, f6{}, f7{}, f8{}, f9{}, f10{}, f11{}, f12{}, f13{}, f14{}, f15{}, f16{}, f17{}, f18{}, f19{}, f20{}, f21{}, f22{}, f23{}, f24{}, f25{}, f26{}, f27{}, f28{}, f29{}, f30{}, f31{}, f32{}, f33{}, f34{}, f35{}, f36{}, f37{}, f38{}, f39{};
    CONFIGOR_BIND(configor::json::value, N40, REQUIRED(f0), REQUIRED(f1, "name 1"), REQUIRED(f2), REQUIRED(f3), REQUIRED(f4, "tab\t4"), REQUIRED(f5), REQUIRED(f6), REQUIRED(f7, "f7.f7"), REQUIRED(f8), REQUIRED(f9), REQUIRED(f10, "q\"10"), REQUIRED(f11), REQUIRED(f12), REQUIRED(f13, "13"), REQUIRED(f14), REQUIRED(f15), REQUIRED(f16, "f17x"), REQUIRED(f17), REQUIRED(f18), REQUIRED(f19, "back\\19"), REQUIRED(f20), REQUIRED(f21), REQUIRED(f22, "F22"), REQUIRED(f23), REQUIRED(f24), REQUIRED(f25, "name 25"), REQUIRED(f26), REQUIRED(f27), REQUIRED(f28, "tab\t28"), REQUIRED(f29), REQUIRED(f30), REQUIRED(f31, "f31.f31"), REQUIRED(f32), REQUIRED(f33), REQUIRED(f34, "q\"34"), REQUIRED(f35), REQUIRED(f36), REQUIRED(f37, "37"), REQUIRED(f38), REQUIRED(f39))
    enum { Count = 40 };
    static bool required(size_t i) { static const bool r[] = { 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1 }; return r[i]; }
    static const char* name(size_t i) { static const char* const r[] = { "f0", "name 1", "f2", "f3", "tab\t4", "f5", "f6", "f7.f7", "f8", "f9", "q\"10", "f11", "f12", "13", "f14", "f15", "f17x", "f17", "f18", "back\\19", "f20", "f21", "F22", "f23", "f24", "name 25", "f26", "f27", "tab\t28", "f29", "f30", "f31.f31", "f32", "f33", "q\"34", "f35", "f36", "37", "f38", "f39" }; return r[i]; }
    int64_t& field(size_t i) { int64_t* const r[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30, &f31, &f32, &f33, &f34, &f35, &f36, &f37, &f38, &f39 }; return *r[i]; }
};
struct N41
{
    int64_t f0{}, f1{}, f2{}, f3{}, f4{}, f5{}, f6{}, f7{}, f8{}, f9{}, f10{}, f11{}, f12{}, f13{}, f14{}, f15{}, f16{}, f17{}, f18{}, f19{}, f20{}, f21{}, f22{}, f23{}, f24{}, f25{}, f26{}, f27{}, f28{}, f29{}, f30{}, f31{}, f32{}, f33{}, f34{}, f35{}, f36{}, f37{}, f38{}, f39{}, f40{};
    CONFIGOR_BIND(configor::json::value, N41, OPTIONAL(f0), OPTIONAL(f1), OPTIONAL(f2, "back\\2"), OPTIONAL(f3), OPTIONAL(f4), OPTIONAL(f5, "F5"), OPTIONAL(f6), OPTIONAL(f7), OPTIONAL(f8, "name 8"), OPTIONAL(f9), OPTIONAL(f10), OPTIONAL(f11, "tab\t11"), OPTIONAL(f12), OPTIONAL(f13), OPTIONAL(f14, "f14.f14"), OPTIONAL(f15), OPTIONAL(f16), OPTIONAL(f17, "q\"17"), OPTIONAL(f18), OPTIONAL(f19), REQUIRED(f20, "20"), OPTIONAL(f21), OPTIONAL(f22), OPTIONAL(f23, "f24x"), OPTIONAL(f24), OPTIONAL(f25), OPTIONAL(f26, "back\\26"), OPTIONAL(f27), OPTIONAL(f28), OPTIONAL(f29, "F29"), OPTIONAL(f30), OPTIONAL(f31), OPTIONAL(f32, "name 32"), OPTIONAL(f33), OPTIONAL(f34), OPTIONAL(f35, "tab\t35"), OPTIONAL(f36), OPTIONAL(f37), OPTIONAL(f38, "f38.f38"), OPTIONAL(f39), OPTIONAL(f40))
    enum { Count = 41 };
    static bool required(size_t i) { static const bool r[] = { 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0 }; return r[i]; }
    static const char* name(size_t i) { static const char* const r[] = { "f0", "f1", "back\\2", "f3", "f4", "F5", "f6", "f7", "name 8", "f9", "f10", "tab\t11", "f12", "f13", "f14.f14", "f15", "f16", "q\"17", "f18", "f19", "20", "f21", "f22", "f24x", "f24", "f25", "back\\26", "f27", "f28", "F29", "f30", "f31", "name 32", "f33", "f34", "tab\t35", "f36", "f37", "f38.f38", "f39", "f40" }; return r[i]; }
    int64_t& field(size_t i) { int64_t* const r[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30, &f31, &f32, &f33, &f34, &f35, &f36, &f37, &f38, &f39, &f40 }; return *r[i]; }
};
struct N42
{
    int64_t f0{}, f1{}, f2{}, f3{}, f4{}, f5{}, f6{}, f7{}, f8{}, f9{}, f10{}, f11{}, f12{}, f13{}, f14{}, f15{}, f16{}, f17{}, f18{}, f19{}, f20{}, f21{}, f22{}, f23{}, f24{}, f25{}, f26{}, f27{}, f28{}, f29{}, f30{}, f31{}, f32{}, f33{}, f34{}, f35{}, f36{}, f37{}, f38{}, f39{}, f40{}, f41{};
    CONFIGOR_BIND(configor::json::value, N42, REQUIRED(f0, "q\"0"), OPTIONAL(f1), REQUIRED(f2), REQUIRED(f3, "3"), OPTIONAL(f4), REQUIRED(f5), OPTIONAL(f6, "f7x"), REQUIRED(f7), REQUIRED(f8), OPTIONAL(f9, "back\\9"), REQUIRED(f10), OPTIONAL(f11), REQUIRED(f12, "F12"), REQUIRED(f13), OPTIONAL(f14), REQUIRED(f15, "name 15"), OPTIONAL(f16), REQUIRED(f17), REQUIRED(f18, "tab\t18"), OPTIONAL(f19), REQUIRED(f20), OPTIONAL(f21, "f21.f21"), REQUIRED(f22), REQUIRED(f23), OPTIONAL(f24, "q\"24"), REQUIRED(f25), OPTIONAL(f26), REQUIRED(f27, "27"), REQUIRED(f28), OPTIONAL(f29), REQUIRED(f30, "f31x"), OPTIONAL(f31), REQUIRED(f32), REQUIRED(f33, "back\\33"), OPTIONAL(f34), REQUIRED(f35), OPTIONAL(f36, "F36"), REQUIRED(f37), REQUIRED(f38), OPTIONAL(f39, "name 39"), REQUIRED(f40), OPTIONAL(f41))
    enum { Count = 42 };
    static bool required(size_t i) { static const bool r[] = { 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0 }; return r[i]; }
    static const char* name(size_t i) { static const char* const r[] = { "q\"0", "f1", "f2", "3", "f4", "f5", "f7x", "f7", "f8", "back\\9", "f10", "f11", "F12", "f13", "f14", "name 15", "f16", "f17", "tab\t18", "f19", "f20", "f21.f21", "f22", "f23", "q\"24", "f25", "f26", "27", "f28", "f29", "f31x", "f31", "f32", "back\\33", "f34", "f35", "F36", "f37", "f38", "name 39", "f40", "f41" }; return r[i]; }
    int64_t& field(size_t i) { int64_t* const r[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30, &f31, &f32, &f33, &f34, &f35, &f36, &f37, &f38, &f39, &f40, &f41 }; return *r[i]; }
};
struct N43
{
    int64_t f0{}, f1{}, f2{}, f3{}, f4{}, f5{}, f6{}, f7{}, f8{}, f9{}, f10{}, f11{}, f12{}, f13{}, f14{}, f15{}, f16{}, f17{}, f18{}, f19{}, f20{}, f21{}, f22{}, f23{}, f24{}, f25{}, f26{}, f27{}, f28{}, f29{}, f30{}, f31{}, f32{}, f33{}, f34{}, f35{}, f36{}, f37{}, f38{}, f39{}, f40{}, f41{}, f42{};
    CONFIGOR_BIND(configor::json::value, N43, OPTIONAL(f0), REQUIRED(f1, "tab\t1"), OPTIONAL(f2), REQUIRED(f3), REQUIRED(f4, "f4.f4"), OPTIONAL(f5), REQUIRED(f6), OPTIONAL(f7, "q\"7"), REQUIRED(f8), REQUIRED(f9), OPTIONAL(f10, "10"), REQUIRED(f11), OPTIONAL(f12), REQUIRED(f13, "f14x"), REQUIRED(f14), OPTIONAL(f15), REQUIRED(f16, "back\\16"), OPTIONAL(f17), REQUIRED(f18), REQUIRED(f19, "F19"), OPTIONAL(f20), REQUIRED(f21), OPTIONAL(f22, "name 22"), REQUIRED(f23), REQUIRED(f24), OPTIONAL(f25, "tab\t25"), REQUIRED(f26), OPTIONAL(f27), REQUIRED(f28, "f28.f28"), REQUIRED(f29), OPTIONAL(f30), REQUIRED(f31, "q\"31"), OPTIONAL(f32), REQUIRED(f33), REQUIRED(f34, "34"), OPTIONAL(f35), REQUIRED(f36), OPTIONAL(f37, "f38x"), REQUIRED(f38), REQUIRED(f39), OPTIONAL(f40, "back\\40"), REQUIRED(f41), OPTIONAL(f42))
    enum { Count = 43 };
    static bool required(size_t i) { static const bool r[] = { 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0 }; return r[i]; }
    static const char* name(size_t i) { static const char* const r[] = { "f0", "tab\t1", "f2", "f3", "f4.f4", "f5", "f6", "q\"7", "f8", "f9", "10", "f11", "f12", "f14x", "f14", "f15", "back\\16", "f17", "f18", "F19", "f20", "f21", "name 22", "f23", "f24", "tab\t25", "f26", "f27", "f28.f28", "f29", "f30", "q\"31", "f32", "f33", "34", "f35", "f36", "f38x", "f38", "f39", "back\\40", "f41", "f42" }; return r[i]; }
    int64_t& field(size_t i) { int64_t* const r[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30, &f31, &f32, &f33, &f34, &f35, &f36, &f37, &f38, &f39, &f40, &f41, &f42 }; return *r[i]; }
};
struct N44
{
    int64_t f0{}, f1{}, f2{}, f3{}, f4{}, f5{}, f6{}, f7{}, f8{}, f9{}, f10{}, f11{}, f12{}, f13{}, f14{}, f15{}, f16{}, f17{}, f18{}, f19{}, f20{}, f21{}, f22{}, f23{}, f24{}, f25{}, f26{}, f27{}, f28{}, f29{}, f30{}, f31{}, f32{}, f33{}, f34{}, f35{}, f36{}, f37{}, f38{}, f39{}, f40{}, f41{}, f42{}, f43{};
    CONFIGOR_BIND(configor::json::value, N44, REQUIRED(f0), OPTIONAL(f1), REQUIRED(f2, "F2"), OPTIONAL(f3), REQUIRED(f4), REQUIRED(f5, "name 5"), OPTIONAL(f6), REQUIRED(f7), OPTIONAL(f8, "tab\t8"), REQUIRED(f9), REQUIRED(f10), OPTIONAL(f11, "f11.f11"), REQUIRED(f12), OPTIONAL(f13), REQUIRED(f14, "q\"14"), REQUIRED(f15), OPTIONAL(f16), REQUIRED(f17, "17"), OPTIONAL(f18), REQUIRED(f19), REQUIRED(f20, "f21x"), OPTIONAL(f21), REQUIRED(f22), OPTIONAL(f23, "back\\23"), REQUIRED(f24), REQUIRED(f25), OPTIONAL(f26, "F26"), REQUIRED(f27), OPTIONAL(f28), REQUIRED(f29, "name 29"), REQUIRED(f30), OPTIONAL(f31), REQUIRED(f32, "tab\t32"), OPTIONAL(f33), REQUIRED(f34), REQUIRED(f35, "f35.f35"), OPTIONAL(f36), REQUIRED(f37), OPTIONAL(f38, "q\"38"), REQUIRED(f39), REQUIRED(f40), OPTIONAL(f41, "41"), REQUIRED(f42), OPTIONAL(f43))
    enum { Count = 44 };
    static bool required(size_t i) { static const bool r[] = { 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0 }; return r[i]; }
    static const char* name(size_t i) { static const char* const r[] = { "f0", "f1", "F2", "f3", "f4", "name 5", "f6", "f7", "tab\t8", "f9", "f10", "f11.f11", "f12", "f13", "q\"14", "f15", "f16", "17", "f18", "f19", "f21x", "f21", "f22", "back\\23", "f24", "f25", "F26", "f27", "f28", "name 29", "f30", "f31", "tab\t32", "f33", "f34", "f35.f35", "f36", "f37", "q\"38", "f39", "f40", "41", "f42", "f43" }; return r[i]; }
    int64_t& field(size_t i) { int64_t* const r[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30, &f31, &f32, &f33, &f34, &f35, &f36, &f37, &f38, &f39, &f40, &f41, &f42, &f43 }; return *r[i]; }
};
struct N45
{
    int64_t f0{}, f1{}, f2{}, f3{}, f4{}, f5{}, f6{}, f7{}, f8{}, f9{}, f10{}, f11{}, f12{}, f13{}, f14{}, f15{}, f16{}, f17{}, f18{}, f19{}, f20{}, f21{}, f22{}, f23{}, f24{}, f25{}, f26{}, f27{}, f28{}, f29{}, f30{}, f31{}, f32{}, f33{}, f34{}, f35{}, f36{}, f37{}, f38{}, f39{}, f40{}, f41{}, f42{}, f43{}, f44{};
    CONFIGOR_BIND(configor::json::value, N45, REQUIRED(f0, "0"), REQUIRED(f1), OPTIONAL(f2), REQUIRED(f3, "f4x"), OPTIONAL(f4), REQUIRED(f5), REQUIRED(f6, "back\\6"), OPTIONAL(f7), REQUIRED(f8), OPTIONAL(f9, "F9"), REQUIRED(f10), REQUIRED(f11), OPTIONAL(f12, "name 12"), REQUIRED(f13), OPTIONAL(f14), REQUIRED(f15, "tab\t15"), REQUIRED(f16), OPTIONAL(f17), REQUIRED(f18, "f18.f18"), OPTIONAL(f19), REQUIRED(f20), REQUIRED(f21, "q\"21"), OPTIONAL(f22), REQUIRED(f23), OPTIONAL(f24, "24"), REQUIRED(f25), REQUIRED(f26), OPTIONAL(f27, "f28x"), REQUIRED(f28), OPTIONAL(f29), REQUIRED(f30, "back\\30"), REQUIRED(f31), OPTIONAL(f32), REQUIRED(f33, "F33"), OPTIONAL(f34), REQUIRED(f35), REQUIRED(f36, "name 36"), OPTIONAL(f37), REQUIRED(f38), OPTIONAL(f39, "tab\t39"), REQUIRED(f40), REQUIRED(f41), OPTIONAL(f42, "f42.f42"), REQUIRED(f43), OPTIONAL(f44))
    enum { Count = 45 };
    static bool required(size_t i) { static const bool r[] = { 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0 }; return r[i]; }
    static const char* name(size_t i) { static const char* const r[] = { "0", "f1", "f2", "f4x", "f4", "f5", "back\\6", "f7", "f8", "F9", "f10", "f11", "name 12", "f13", "f14", "tab\t15", "f16", "f17", "f18.f18", "f19", "f20", "q\"21", "f22", "f23", "24", "f25", "f26", "f28x", "f28", "f29", "back\\30", "f31", "f32", "F33", "f34", "f35", "name 36", "f37", "f38", "tab\t39", "f40", "f41", "f42.f42", "f43", "f44" }; return r[i]; }
    int64_t& field(size_t i) { int64_t* const r[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30, &f31, &f32, &f33, &f34, &f35, &f36, &f37, &f38, &f39, &f40, &f41, &f42, &f43, &f44 }; return *r[i]; }
};
struct N46
{
    int64_t f0{}, f1{}, f2{}, f3{}, f4{}, f5{}, f6{}, f7{}, f8{}, f9{}, f10{}, f11{}, f12{}, f13{}, f14{}, f15{}, f16{}, f17{}, f18{}, f19{}, f20{}, f21{}, f22{}, f23{}, f24{}, f25{}, f26{}, f27{}, f28{}, f29{}, f30{}, f31{}, f32{}, f33{}, f34{}, f35{}, f36{}, f37{}, f38{}, f39{}, f40{}, f41{}, f42{}, f43{}, f44{}, f45{};
    CONFIGOR_BIND(configor::json::value, N46, OPTIONAL(f0), REQUIRED(f1, "f1.f1"), REQUIRED(f2), OPTIONAL(f3), REQUIRED(f4, "q\"4"), OPTIONAL(f5), REQUIRED(f6), REQUIRED(f7, "7"), OPTIONAL(f8), REQUIRED(f9), OPTIONAL(f10, "f11x"), REQUIRED(f11), REQUIRED(f12), OPTIONAL(f13, "back\\13"), REQUIRED(f14), OPTIONAL(f15), REQUIRED(f16, "F16"), REQUIRED(f17), OPTIONAL(f18), REQUIRED(f19, "name 19"), OPTIONAL(f20), REQUIRED(f21), REQUIRED(f22, "tab\t22"), OPTIONAL(f23), REQUIRED(f24), OPTIONAL(f25, "f25.f25"), REQUIRED(f26), REQUIRED(f27), OPTIONAL(f28, "q\"28"), REQUIRED(f29), OPTIONAL(f30), REQUIRED(f31, "31"), REQUIRED(f32), OPTIONAL(f33), REQUIRED(f34, "f35x"), OPTIONAL(f35), REQUIRED(f36), REQUIRED(f37, "back\\37"), OPTIONAL(f38), REQUIRED(f39), OPTIONAL(f40, "F40"), REQUIRED(f41), REQUIRED(f42), OPTIONAL(f43, "name 43"), REQUIRED(f44), OPTIONAL(f45))
    enum { Count = 46 };
    static bool required(size_t i) { static const bool r[] = { 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0 }; return r[i]; }
    static const char* name(size_t i) { static const char* const r[] = { "f0", "f1.f1", "f2", "f3", "q\"4", "f5", "f6", "7", "f8", "f9", "f11x", "f11", "f12", "back\\13", "f14", "f15", "F16", "f17", "f18", "name 19", "f20", "f21", "tab\t22", "f23", "f24", "f25.f25", "f26", "f27", "q\"28", "f29", "f30", "31", "f32", "f33", "f35x", "f35", "f36", "back\\37", "f38", "f39", "F40", "f41", "f42", "name 43", "f44", "f45" }; return r[i]; }
    int64_t& field(size_t i) { int64_t* const r[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30, &f31, &f32, &f33, &f34, &f35, &f36, &f37, &f38, &f39, &f40, &f41, &f42, &f43, &f44, &f45 }; return *r[i]; }
};
struct N47
{
    int64_t f0{}, f1{}, f2{}, f3{}, f4{}, f5{}, f6{}, f7{}, f8{}, f9{}, f10{}, f11{}, f12{}, f13{}, f14{}, f15{}, f16{}, f17{}, f18{}, f19{}, f20{}, f21{}, f22{}, f23{}, f24{}, f25{}, f26{}, f27{}, f28{}, f29{}, f30{}, f31{}, f32{}, f33{}, f34{}, f35{}, f36{}, f37{}, f38{}, f39{}, f40{}, f41{}, f42{}, f43{}, f44{}, f45{}, f46{};
    CONFIGOR_BIND(configor::json::value, N47, REQUIRED(f0), OPTIONAL(f1), REQUIRED(f2, "name 2"), REQUIRED(f3), OPTIONAL(f4), REQUIRED(f5, "tab\t5"), OPTIONAL(f6), REQUIRED(f7), REQUIRED(f8, "f8.f8"), OPTIONAL(f9), REQUIRED(f10), OPTIONAL(f11, "q\"11"), REQUIRED(f12), REQUIRED(f13), OPTIONAL(f14, "14"), REQUIRED(f15), OPTIONAL(f16), REQUIRED(f17, "f18x"), REQUIRED(f18), OPTIONAL(f19), REQUIRED(f20, "back\\20"), OPTIONAL(f21), REQUIRED(f22), REQUIRED(f23, "F23"), OPTIONAL(f24), REQUIRED(f25), OPTIONAL(f26, "name 26"), REQUIRED(f27), REQUIRED(f28), OPTIONAL(f29, "tab\t29"), REQUIRED(f30), OPTIONAL(f31), REQUIRED(f32, "f32.f32"), REQUIRED(f33), OPTIONAL(f34), REQUIRED(f35, "q\"35"), OPTIONAL(f36), REQUIRED(f37), REQUIRED(f38, "38"), OPTIONAL(f39), REQUIRED(f40), OPTIONAL(f41, "f42x"), REQUIRED(f42), REQUIRED(f43), OPTIONAL(f44, "back\\44"), REQUIRED(f45), OPTIONAL(f46))
    enum { Count = 47 };
    static bool required(size_t i) { static const bool r[] = { 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0 }; return r[i]; }
    static const char* name(size_t i) { static const char* const r[] = { "f0", "f1", "name 2", "f3", "f4", "tab\t5", "f6", "f7", "f8.f8", "f9", "f10", "q\"11", "f12", "f13", "14", "f15", "f16", "f18x", "f18", "f19", "back\\20", "f21", "f22", "F23", "f24", "f25", "name 26", "f27", "f28", "tab\t29", "f30", "f31", "f32.f32", "f33", "f34", "q\"35", "f36", "f37", "38", "f39", "f40", "f42x", "f42", "f43", "back\\44", "f45", "f46" }; return r[i]; }
    int64_t& field(size_t i) { int64_t* const r[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30, &f31, &f32, &f33, &f34, &f35, &f36, &f37, &f38, &f39, &f40, &f41, &f42, &f43, &f44, &f45, &f46 }; return *r[i]; }
};
struct N48
{
    int64_t f0{}, f1{}, f2{}, f3{}, f4{}, f5{}, f6{}, f7{}, f8{}, f9{}, f10{}, f11{}, f12{}, f13{}, f14{}, f15{}, f16{}, f17{}, f18{}, f19{}, f20{}, f21{}, f22{}, f23{}, f24{}, f25{}, f26{}, f27{}, f28{}, f29{}, f30{}, f31{}, f32{}, f33{}, f34{}, f35{}, f36{}, f37{}, f38{}, f39{}, f40{}, f41{}, f42{}, f43{}, f44{}, f45{}, f46{}, f47{};
    CONFIGOR_BIND(configor::json::value, N48, OPTIONAL(f0, "f1x"), REQUIRED(f1), OPTIONAL(f2), REQUIRED(f3, "back\\3"), REQUIRED(f4), OPTIONAL(f5), REQUIRED(f6, "F6"), OPTIONAL(f7), REQUIRED(f8), REQUIRED(f9, "name 9"), OPTIONAL(f10), REQUIRED(f11), OPTIONAL(f12, "tab\t12"), REQUIRED(f13), REQUIRED(f14), OPTIONAL(f15, "f15.f15"), REQUIRED(f16), OPTIONAL(f17), REQUIRED(f18, "q\"18"), REQUIRED(f19), OPTIONAL(f20), REQUIRED(f21, "21"), OPTIONAL(f22), REQUIRED(f23), REQUIRED(f24, "f25x"), OPTIONAL(f25), REQUIRED(f26), OPTIONAL(f27, "back\\27"), REQUIRED(f28), REQUIRED(f29), OPTIONAL(f30, "F30"), REQUIRED(f31), OPTIONAL(f32), REQUIRED(f33, "name 33"), REQUIRED(f34), OPTIONAL(f35), REQUIRED(f36, "tab\t36"), OPTIONAL(f37), REQUIRED(f38), REQUIRED(f39, "f39.f39"), OPTIONAL(f40), REQUIRED(f41), OPTIONAL(f42, "q\"42"), REQUIRED(f43), REQUIRED(f44), OPTIONAL(f45, "45"), REQUIRED(f46), OPTIONAL(f47))
    enum { Count = 48 };
    static bool required(size_t i) { static const bool r[] = { 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0 }; return r[i]; }
    static const char* name(size_t i) { static const char* const r[] = { "f1x", "f1", "f2", "back\\3", "f4", "f5", "F6", "f7", "f8", "name 9", "f10", "f11", "tab\t12", "f13", "f14", "f15.f15", "f16", "f17", "q\"18", "f19", "f20", "21", "f22", "f23", "f25x", "f25", "f26", "back\\27", "f28", "f29", "F30", "f31", "f32", "name 33", "f34", "f35", "tab\t36", "f37", "f38", "f39.f39", "f40", "f41", "q\"42", "f43", "f44", "45", "f46", "f47" }; return r[i]; }
    int64_t& field(size_t i) { int64_t* const r[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30, &f31, &f32, &f33, &f34, &f35, &f36, &f37, &f38, &f39, &f40, &f41, &f42, &f43, &f44, &f45, &f46, &f47 }; return *r[i]; }
};
struct N49
{
    int64_t f0{}, f1{}, f2{}, f3{}, f4{}, f5{}, f6{}, f7{}, f8{}, f9{}, f10{}, f11{}, f12{}, f13{}, f14{}, f15{}, f16{}, f17{}, f18{}, f19{}, f20{}, f21{}, f22{}, f23{}, f24{}, f25{}, f26{}, f27{}, f28{}, f29{}, f30{}, f31{}, f32{}, f33{}, f34{}, f35{}, f36{}, f37{}, f38{}, f39{}, f40{}, f41{}, f42{}, f43{}, f44{}, f45{}, f46{}, f47{}, f48{};
    CONFIGOR_BIND(configor::json::value, N49, REQUIRED(f0), OPTIONAL(f1, "q\"1"), REQUIRED(f2), OPTIONAL(f3), REQUIRED(f4, "4"), REQUIRED(f5), OPTIONAL(f6), REQUIRED(f7, "f8x"), OPTIONAL(f8), REQUIRED(f9), REQUIRED(f10, "back\\10"), OPTIONAL(f11), REQUIRED(f12), OPTIONAL(f13, "F13"), REQUIRED(f14), REQUIRED(f15), OPTIONAL(f16, "name 16"), REQUIRED(f17), OPTIONAL(f18), REQUIRED(f19, "tab\t19"), REQUIRED(f20), OPTIONAL(f21), REQUIRED(f22, "f22.f22"), OPTIONAL(f23), REQUIRED(f24), REQUIRED(f25, "q\"25"), OPTIONAL(f26), REQUIRED(f27), OPTIONAL(f28, "28"), REQUIRED(f29), REQUIRED(f30), OPTIONAL(f31, "f32x"), REQUIRED(f32), OPTIONAL(f33), REQUIRED(f34, "back\\34"), REQUIRED(f35), OPTIONAL(f36), REQUIRED(f37, "F37"), OPTIONAL(f38), REQUIRED(f39), REQUIRED(f40, "name 40"), OPTIONAL(f41), REQUIRED(f42), OPTIONAL(f43, "tab\t43"), REQUIRED(f44), REQUIRED(f45), OPTIONAL(f46, "f46.f46"), REQUIRED(f47), OPTIONAL(f48))
    enum { Count = 49 };
    static bool required(size_t i) { static const bool r[] = { 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0 }; return r[i]; }
    static const char* name(size_t i) { static const char* const r[] = { "f0", "q\"1", "f2", "f3", "4", "f5", "f6", "f8x", "f8", "f9", "back\\10", "f11", "f12", "F13", "f14", "f15", "name 16", "f17", "f18", "tab\t19", "f20", "f21", "f22.f22", "f23", "f24", "q\"25", "f26", "f27", "28", "f29", "f30", "f32x", "f32", "f33", "back\\34", "f35", "f36", "F37", "f38", "f39", "name 40", "f41", "f42", "tab\t43", "f44", "f45", "f46.f46", "f47", "f48" }; return r[i]; }
    int64_t& field(size_t i) { int64_t* const r[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30, &f31, &f32, &f33, &f34, &f35, &f36, &f37, &f38, &f39, &f40, &f41, &f42, &f43, &f44, &f45, &f46, &f47, &f48 }; return *r[i]; }
};
struct N50
{
    int64_t f0{}, f1{}, f2{}, f3{}, f4{}, f5{}, f6{}, f7{}, f8{}, f9{}, f10{}, f11{}, f12{}, f13{}, f14{}, f15{}, f16{}, f17{}, f18{}, f19{}, f20{}, f21{}, f22{}, f23{}, f24{}, f25{}, f26{}, f27{}, f28{}, f29{}, f30{}, f31{}, f32{}, f33{}, f34{}, f35{}, f36{}, f37{}, f38{}, f39{}, f40{}, f41{}, f42{}, f43{}, f44{}, f45{}, f46{}, f47{}, f48{}, f49{};
    CONFIGOR_BIND(configor::json::value, N50, REQUIRED(f0), REQUIRED(f1), REQUIRED(f2, "tab\t2"), REQUIRED(f3), REQUIRED(f4), REQUIRED(f5, "f5.f5"), REQUIRED(f6), REQUIRED(f7), REQUIRED(f8, "q\"8"), REQUIRED(f9), REQUIRED(f10), REQUIRED(f11, "11"), REQUIRED(f12), REQUIRED(f13), REQUIRED(f14, "f15x"), REQUIRED(f15), REQUIRED(f16), REQUIRED(f17, "back\\17"), REQUIRED(f18), REQUIRED(f19), REQUIRED(f20, "F20"), REQUIRED(f21), REQUIRED(f22), REQUIRED(f23, "name 23"), REQUIRED(f24), REQUIRED(f25), REQUIRED(f26, "tab\t26"), REQUIRED(f27), REQUIRED(f28), REQUIRED(f29, "f29.f29"), REQUIRED(f30), REQUIRED(f31), REQUIRED(f32, "q\"32"), REQUIRED(f33), REQUIRED(f34), REQUIRED(f35, "35"), REQUIRED(f36), REQUIRED(f37), REQUIRED(f38, "f39x"), REQUIRED(f39), REQUIRED(f40), REQUIRED(f41, "back\\41"), REQUIRED(f42), REQUIRED(f43), REQUIRED(f44, "F44"), REQUIRED(f45), REQUIRED(f46), REQUIRED(f47, "name 47"), REQUIRED(f48), REQUIRED(f49))
    enum { Count = 50 };
    static bool required(size_t i) { static const bool r[] = { 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1 }; return r[i]; }
    static const char* name(size_t i) { static const char* const r[] = { "f0", "f1", "tab\t2", "f3", "f4", "f5.f5", "f6", "f7", "q\"8", "f9", "f10", "11", "f12", "f13", "f15x", "f15", "f16", "back\\17", "f18", "f19", "F20", "f21", "f22", "name 23", "f24", "f25", "tab\t26", "f27", "f28", "f29.f29", "f30", "f31", "q\"32", "f33", "f34", "35", "f36", "f37", "f39x", "f39", "f40", "back\\41", "f42", "f43", "F44", "f45", "f46", "name 47", "f48", "f49" }; return r[i]; }
    int64_t& field(size_t i) { int64_t* const r[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30, &f31, &f32, &f33, &f34, &f35, &f36, &f37, &f38, &f39, &f40, &f41, &f42, &f43, &f44, &f45, &f46, &f47, &f48, &f49 }; return *r[i]; }
};
struct W1
{
    int64_t f0{};
    CONFIGOR_BIND(configor::wjson::value, W1, OPTIONAL(f0, L"name 0"))
    enum { Count = 1 };
    static bool required(size_t i) { static const bool r[] = { 0 }; return r[i]; }
    static const char* name(size_t i) { static const char* const r[] = { "name 0" }; return r[i]; }
    int64_t& field(size_t i) { int64_t* const r[] = { &f0 }; return *r[i]; }
};
struct W2
{
    int64_t f0{}, f1{};
    CONFIGOR_BIND(configor::wjson::value, W2, REQUIRED(f0, L"q\"0"), OPTIONAL(f1, L"back\\1"))
    enum { Count = 2 };
    static bool required(size_t i) { static const bool r[] = { 1, 0 }; return r[i]; }
    static const char* name(size_t i) { static const char* const r[] = { "q\"0", "back\\1" }; return r[i]; }
    int64_t& field(size_t i) { int64_t* const r[] = { &f0, &f1 }; return *r[i]; }
};
struct W7
{
    int64_t f0{}, f1{}, f2{}, f3{}, f4{}, f5{}, f6{};
    CONFIGOR_BIND(configor::wjson::value, W7, REQUIRED(f0, L"f0.f0"), OPTIONAL(f1, L"f2x"), REQUIRED(f2, L"name 2"), REQUIRED(f3, L"q\"3"), OPTIONAL(f4, L"back\\4"), REQUIRED(f5, L"tab\t5"), OPTIONAL(f6, L"6"))
    enum { Count = 7 };
    static bool required(size_t i) { static const bool r[] = { 1, 0, 1, 1, 0, 1, 0 }; return r[i]; }
    static const char* name(size_t i) { static const char* const r[] = { "f0.f0", "f2x", "name 2", "q\"3", "back\\4", "tab\t5", "6" }; return r[i]; }
    int64_t& field(size_t i) { int64_t* const r[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6 }; return *r[i]; }
};
struct W33
{
    int64_t f0{}, f1{}, f2{}, f3{}, f4{}, f5{}, f6{}, f7{}, f8{}, f9{}, f10{}, f11{}, f12{}, f13{}, f14{}, f15{}, f16{}, f17{}, f18{}, f19{}, f20{}, f21{}, f22{}, f23{}, f24{}, f25{}, f26{}, f27{}, f28{}, f29{}, f30{}, f31{}, f32{};
    CONFIGOR_BIND(configor::wjson::value, W33, OPTIONAL(f0, L"name 0"), REQUIRED(f1, L"q\"1"), OPTIONAL(f2, L"back\\2"), REQUIRED(f3, L"tab\t3"), REQUIRED(f4, L"4"), OPTIONAL(f5, L"F5"), REQUIRED(f6, L"f6.f6"), OPTIONAL(f7, L"f8x"), REQUIRED(f8, L"name 8"), REQUIRED(f9, L"q\"9"), OPTIONAL(f10, L"back\\10"), REQUIRED(f11, L"tab\t11"), OPTIONAL(f12, L"12"), REQUIRED(f13, L"F13"), REQUIRED(f14, L"f14.f14"), OPTIONAL(f15, L"f16x"), REQUIRED(f16, L"name 16"), OPTIONAL(f17, L"q\"17"), REQUIRED(f18, L"back\\18"), REQUIRED(f19, L"tab\t19"), OPTIONAL(f20, L"20"), REQUIRED(f21, L"F21"), OPTIONAL(f22, L"f22.f22"), REQUIRED(f23, L"f24x"), REQUIRED(f24, L"name 24"), OPTIONAL(f25, L"q\"25"), REQUIRED(f26, L"back\\26"), OPTIONAL(f27, L"tab\t27"), REQUIRED(f28, L"28"), REQUIRED(f29, L"F29"), OPTIONAL(f30, L"f30.f30"), REQUIRED(f31, L"f32x"), OPTIONAL(f32, L"name 32"))
    enum { Count = 33 };
    static bool required(size_t i) { static const bool r[] = { 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0 }; return r[i]; }
    static const char* name(size_t i) { static const char* const r[] = { "name 0", "q\"1", "back\\2", "tab\t3", "4", "F5", "f6.f6", "f8x", "name 8", "q\"9", "back\\10", "tab\t11", "12", "F13", "f14.f14", "f16x", "name 16", "q\"17", "back\\18", "tab\t19", "20", "F21", "f22.f22", "f24x", "name 24", "q\"25", "back\\26", "tab\t27", "28", "F29", "f30.f30", "f32x", "name 32" }; return r[i]; }
    int64_t& field(size_t i) { int64_t* const r[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30, &f31, &f32 }; return *r[i]; }
};
struct W50
{
    int64_t f0{}, f1{}, f2{}, f3{}, f4{}, f5{}, f6{}, f7{}, f8{}, f9{}, f10{}, f11{}, f12{}, f13{}, f14{}, f15{}, f16{}, f17{}, f18{}, f19{}, f20{}, f21{}, f22{}, f23{}, f24{}, f25{}, f26{}, f27{}, f28{}, f29{}, f30{}, f31{}, f32{}, f33{}, f34{}, f35{}, f36{}, f37{}, f38{}, f39{}, f40{}, f41{}, f42{}, f43{}, f44{}, f45{}, f46{}, f47{}, f48{}, f49{};
    CONFIGOR_BIND(configor::wjson::value, W50, REQUIRED(f0, L"q\"0"), REQUIRED(f1, L"back\\1"), REQUIRED(f2, L"tab\t2"), REQUIRED(f3, L"3"), REQUIRED(f4, L"F4"), REQUIRED(f5, L"f5.f5"), REQUIRED(f6, L"f7x"), REQUIRED(f7, L"name 7"), REQUIRED(f8, L"q\"8"), REQUIRED(f9, L"back\\9"), REQUIRED(f10, L"tab\t10"), REQUIRED(f11, L"11"), REQUIRED(f12, L"F12"), REQUIRED(f13, L"f13.f13"), REQUIRED(f14, L"f15x"), REQUIRED(f15, L"name 15"), REQUIRED(f16, L"q\"16"), REQUIRED(f17, L"back\\17"), REQUIRED(f18, L"tab\t18"), REQUIRED(f19, L"19"), REQUIRED(f20, L"F20"), REQUIRED(f21, L"f21.f21"), REQUIRED(f22, L"f23x"), REQUIRED(f23, L"name 23"), REQUIRED(f24, L"q\"24"), REQUIRED(f25, L"back\\25"), REQUIRED(f26, L"tab\t26"), REQUIRED(f27, L"27"), REQUIRED(f28, L"F28"), REQUIRED(f29, L"f29.f29"), REQUIRED(f30, L"f31x"), REQUIRED(f31, L"name 31"), REQUIRED(f32, L"q\"32"), REQUIRED(f33, L"back\\33"), REQUIRED(f34, L"tab\t34"), REQUIRED(f35, L"35"), REQUIRED(f36, L"F36"), REQUIRED(f37, L"f37.f37"), REQUIRED(f38, L"f39x"), REQUIRED(f39, L"name 39"), REQUIRED(f40, L"q\"40"), REQUIRED(f41, L"back\\41"), REQUIRED(f42, L"tab\t42"), REQUIRED(f43, L"43"), REQUIRED(f44, L"F44"), REQUIRED(f45, L"f45.f45"), REQUIRED(f46, L"f47x"), REQUIRED(f47, L"name 47"), REQUIRED(f48, L"q\"48"), REQUIRED(f49, L"back\\49"))
    enum { Count = 50 };
    static bool required(size_t i) { static const bool r[] = { 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1 }; return r[i]; }
    static const char* name(size_t i) { static const char* const r[] = { "q\"0", "back\\1", "tab\t2", "3", "F4", "f5.f5", "f7x", "name 7", "q\"8", "back\\9", "tab\t10", "11", "F12", "f13.f13", "f15x", "name 15", "q\"16", "back\\17", "tab\t18", "19", "F20", "f21.f21", "f23x", "name 23", "q\"24", "back\\25", "tab\t26", "27", "F28", "f29.f29", "f31x", "name 31", "q\"32", "back\\33", "tab\t34", "35", "F36", "f37.f37", "f39x", "name 39", "q\"40", "back\\41", "tab\t42", "43", "F44", "f45.f45", "f47x", "name 47", "q\"48", "back\\49" }; return r[i]; }
    int64_t& field(size_t i) { int64_t* const r[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30, &f31, &f32, &f33, &f34, &f35, &f36, &f37, &f38, &f39, &f40, &f41, &f42, &f43, &f44, &f45, &f46, &f47, &f48, &f49 }; return *r[i]; }
};
#define VH_BOUND0(X) X(N3) X(N6) X(N9) X(N12) X(N15) X(N18) X(N21) X(N24) X(N27) X(N30) X(N33) X(N36) X(N39) X(N42) X(N45) X(N48)
#define VH_BOUND1(X) X(N1) X(N4) X(N7) X(N10) X(N13) X(N16) X(N19) X(N22) X(N25) X(N28) X(N31) X(N34) X(N37) X(N40) X(N43) X(N46) X(N49)
#define VH_BOUND2(X) X(N2) X(N5) X(N8) X(N11) X(N14) X(N17) X(N20) X(N23) X(N26) X(N29) X(N32) X(N35) X(N38) X(N41) X(N44) X(N47) X(N50)
#define VH_ALL_WBOUND(X) X(W1) X(W2) X(W7) X(W33) X(W50)
