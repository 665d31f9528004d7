// MessagePack, as published: what the bytes of an item are and what bytes denote.
#pragma once
#include "vp.h"
#include <aerospike/as_msgpack.h>

// ---------------------------------------------------------------- encodings (shortest form)
static inline uint64_t
sp_uint_len(uint64_t v)
{
	return v < 0x80 ? 1 : v <= 0xff ? 2 : v <= 0xffff ? 3 : v <= 0xffffffffu ? 5 : 9;
}

static inline uint8_t
sp_uint_byte(uint64_t v, uint64_t i)
{
	uint64_t len = sp_uint_len(v);
	if (len == 1) {
		return (uint8_t)v;
	}
	if (i == 0) {
		return len == 2 ? 0xcc : len == 3 ? 0xcd : len == 5 ? 0xce : 0xcf;
	}
	return (uint8_t)(v >> (8 * (len - 1 - i)));
}

static inline uint64_t
sp_int_len(int64_t v)
{
	return v >= 0 ? sp_uint_len((uint64_t)v) : v >= -32 ? 1 : v >= -128 ? 2 : v >= -32768 ? 3 : v >= -2147483648ll ? 5 : 9;
}

static inline uint8_t
sp_int_byte(int64_t v, uint64_t i)
{
	if (v >= 0) {
		return sp_uint_byte((uint64_t)v, i);
	}
	uint64_t len = sp_int_len(v);
	if (len == 1) {
		return (uint8_t)v;	// 111xxxxx
	}
	if (i == 0) {
		return len == 2 ? 0xd0 : len == 3 ? 0xd1 : len == 5 ? 0xd2 : 0xd3;
	}
	return (uint8_t)((uint64_t)v >> (8 * (len - 1 - i)));
}

// length field of n bytes after a type byte
static inline uint8_t
sp_len_byte(uint8_t type, uint64_t n, uint64_t width, uint64_t i)
{
	return i == 0 ? type : (uint8_t)(n >> (8 * (width - i)));
}

// header of a string (or of a blob written with string headers)
static inline uint64_t
sp_str_hdr(uint64_t n)
{
	return n < 32 ? 1 : n <= 0xff ? 2 : n <= 0xffff ? 3 : 5;
}

static inline uint8_t
sp_str_byte(uint64_t n, uint64_t i)
{
	uint64_t h = sp_str_hdr(n);
	if (h == 1) {
		return (uint8_t)(0xa0 | n);
	}
	return sp_len_byte(h == 2 ? 0xd9 : h == 3 ? 0xda : 0xdb, n, h - 1, i);
}

static inline uint64_t
sp_bin_hdr(uint64_t n)
{
	return n <= 0xff ? 2 : n <= 0xffff ? 3 : 5;
}

static inline uint8_t
sp_bin_byte(uint64_t n, uint64_t i)
{
	uint64_t h = sp_bin_hdr(n);
	return sp_len_byte(h == 2 ? 0xc4 : h == 3 ? 0xc5 : 0xc6, n, h - 1, i);
}

// header of a list (fix 0x90, 0xdc, 0xdd) or map (fix 0x80, 0xde, 0xdf)
static inline uint64_t
sp_cont_hdr(uint64_t n)
{
	return n < 16 ? 1 : n <= 0xffff ? 3 : 5;
}

static inline uint8_t
sp_cont_byte(bool map, uint64_t n, uint64_t i)
{
	uint64_t h = sp_cont_hdr(n);
	if (h == 1) {
		return (uint8_t)((map ? 0x80 : 0x90) | n);
	}
	return sp_len_byte((map ? 0xde : 0xdc) + (h == 5), n, h - 1, i);
}

// ext header: type, length field (if any), ext type
static inline uint64_t
sp_ext_hdr(uint64_t n)
{
	return n == 1 || n == 2 || n == 4 || n == 8 || n == 16 ? 2 : n <= 0xff ? 3 : n <= 0xffff ? 4 : 6;
}

static inline uint8_t
sp_ext_byte(uint64_t n, uint8_t ext_type, uint64_t i)
{
	uint64_t h = sp_ext_hdr(n);
	if (i == h - 1) {
		return ext_type;
	}
	if (h == 2) {
		return n == 1 ? 0xd4 : n == 2 ? 0xd5 : n == 4 ? 0xd6 : n == 8 ? 0xd7 : 0xd8;
	}
	return sp_len_byte(h == 3 ? 0xc7 : h == 4 ? 0xc8 : 0xc9, n, h - 2, i);
}

// ---------------------------------------------------------------- decoding
static inline uint64_t
sp_be(const uint8_t* p, uint64_t n)	// n = 1, 2, 4, 8
{
	uint64_t v = p[0];
	if (n >= 2) {
		v = v << 8 | p[1];
	}
	if (n >= 4) {
		v = (v << 8 | p[2]) << 8 | p[3];
	}
	if (n == 8) {
		v = (((v << 8 | p[4]) << 8 | p[5]) << 8 | p[6]) << 8 | p[7];
	}
	return v;
}

enum { F_BAD, F_NIL, F_BOOL, F_UINT, F_INT, F_FLOAT, F_STR, F_BIN, F_LIST, F_MAP, F_EXT };

// family of a first byte
static inline uint32_t
sp_family(uint8_t t)
{
	return t < 0x80 ? F_UINT : t < 0x90 ? F_MAP : t < 0xa0 ? F_LIST : t < 0xc0 ? F_STR : t == 0xc0 ? F_NIL : t == 0xc1 ? F_BAD
		: t <= 0xc3 ? F_BOOL : t <= 0xc6 ? F_BIN : t <= 0xc9 ? F_EXT : t <= 0xcb ? F_FLOAT : t <= 0xcf ? F_UINT : t <= 0xd3 ? F_INT
		: t <= 0xd8 ? F_EXT : t <= 0xdb ? F_STR : t <= 0xdd ? F_LIST : t <= 0xdf ? F_MAP : F_INT;
}

// width of the number or length field after the first byte
static inline uint64_t
sp_field(uint8_t t)
{
	return t == 0xcc || t == 0xd0 || t == 0xc4 || t == 0xd9 || t == 0xc7 ? 1
		: t == 0xcd || t == 0xd1 || t == 0xc5 || t == 0xda || t == 0xdc || t == 0xde || t == 0xc8 ? 2
		: t == 0xce || t == 0xd2 || t == 0xc6 || t == 0xdb || t == 0xdd || t == 0xdf || t == 0xc9 || t == 0xca ? 4
		: t == 0xcf || t == 0xd3 || t == 0xcb ? 8 : 0;
}

// the length a str, bin, ext, list or map header denotes; the field lies at p + 1
static inline uint64_t
sp_count(const uint8_t* p)
{
	uint8_t t = p[0];
	uint64_t w = sp_field(t);
	if (w) {
		return sp_be(p + 1, w);
	}
	return t < 0x90 ? t & 0x0f : t < 0xa0 ? t & 0x0f : t < 0xc0 ? t & 0x1f
		: t == 0xd4 ? 1 : t == 0xd5 ? 2 : t == 0xd6 ? 4 : t == 0xd7 ? 8 : 16;
}

// the integer at p
static inline uint64_t
sp_number(const uint8_t* p)
{
	uint8_t t = p[0];
	if (t < 0x80) {
		return t;
	}
	if (t >= 0xe0) {
		return (uint64_t)(int64_t)(int8_t)t;
	}
	uint64_t w = sp_field(t);
	uint64_t v = sp_be(p + 1, w);
	if (t >= 0xd0) {
		return w == 1 ? (uint64_t)(int64_t)(int8_t)v : w == 2 ? (uint64_t)(int64_t)(int16_t)v : w == 4 ? (uint64_t)(int64_t)(int32_t)v : v;
	}
	return v;
}

// bytes of the non-container item at p with `left` bytes available; 0: malformed or truncated
static inline uint64_t
sp_item_size(const uint8_t* p, uint64_t left)
{
	if (left == 0) {
		return 0;
	}
	uint32_t f = sp_family(p[0]);
	uint64_t w = sp_field(p[0]);
	if (f == F_BAD || left < 1 + w) {
		return 0;
	}
	uint64_t n = 1 + w;
	if (f == F_STR || f == F_BIN) {
		n += sp_count(p);
	}
	else if (f == F_EXT) {
		n += 1 + sp_count(p);
	}
	return n <= left ? n : 0;
}

// ---------------------------------------------------------------- packing into a fixed buffer
static as_packer pk;
static uint8_t* buf;
static uint8_t* was;
static uint32_t cap, off;
static uint64_t at;		// observed position of the buffer

static inline void
packer_setup(void)
{
	cap = vp_range("capacity", 0, 0xffffffff);
	off = vp_range("offset", 0, 0xffffffff);
	vp_assume(off <= cap);
	buf = vp_obj(cap, "buffer");
	pk.head = NULL;
	pk.tail = NULL;
	pk.buffer = buf;
	pk.offset = off;
	pk.capacity = cap;
	at = vp_range("at", 0, 0xffffffff);
	vp_assume(at < cap);
	was = vp_snap(buf, cap);
	vp_cover("precondition");
}
