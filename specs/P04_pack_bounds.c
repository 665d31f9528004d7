// P04: packing never writes outside the destination and loses nothing.
#include "mp.h"
#include <aerospike/as_nil.h>
#include <aerospike/as_boolean.h>
#include <aerospike/as_integer.h>
#include <aerospike/as_double.h>
#include <aerospike/as_string.h>
#include <aerospike/as_geojson.h>
#include <aerospike/as_bytes.h>
#include <aerospike/as_msgpack_ext.h>

// ---------------------------------------------------------------- caller-supplied buffer
// Every write inside the block is checked by the verifier; the block has exactly the announced capacity.
static void
fixed(int rc, uint64_t len)
{
	bool fits = (uint64_t)off + len <= cap;
	vp_assert((rc == 0) == fits, "success exactly when the item fits");
	vp_assert(pk.buffer == buf && pk.capacity == cap && pk.head == NULL && pk.tail == NULL, "the caller's buffer stays in place");
	if (fits) {
		vp_assert(pk.offset == off + len, "position moves by the bytes of the item");
		vp_assert((at >= off && at < off + len) || buf[at] == was[at], "only the bytes of the item change");
	}
	else {
		vp_assert(pk.offset >= off && pk.offset <= cap, "position stays inside the buffer");
		vp_assert(at >= off || buf[at] == was[at], "packed bytes are kept");
	}
}

VP_HARNESS(fixed_uint64)
{
	packer_setup();
	uint64_t v = vp_u64("v");
	fixed(as_pack_uint64(&pk, v), sp_uint_len(v));
}

VP_HARNESS(fixed_int64)
{
	packer_setup();
	int64_t v = (int64_t)vp_u64("v");
	fixed(as_pack_int64(&pk, v), sp_int_len(v));
}

VP_HARNESS(fixed_small)
{
	packer_setup();
	uint64_t c = vp_split(vp_range("case", 0, 5), 6);
	uint64_t bits = vp_u64("bits");
	double d;
	float f;
	memcpy(&d, &bits, 8);
	memcpy(&f, &bits, 4);
	int rc = c == 0 ? as_pack_nil(&pk) : c == 1 ? as_pack_bool(&pk, bits & 1) : c == 2 ? as_pack_cmp_inf(&pk) : c == 3 ? as_pack_cmp_wildcard(&pk)
		: c == 4 ? as_pack_float(&pk, f) : as_pack_double(&pk, d);
	fixed(rc, c < 2 ? 1 : c < 4 ? 3 : c == 4 ? 5 : 9);
}

VP_HARNESS(fixed_str)
{
	packer_setup();
	uint32_t n = vp_range("n", 0, 0xffffffff);
	fixed(as_pack_str(&pk, vp_obj(n, "src"), n), sp_str_hdr(n) + n);
}

VP_HARNESS(fixed_bin)
{
	packer_setup();
	uint32_t n = vp_range("n", 0, 0xffffffff);
	fixed(as_pack_bin(&pk, vp_obj(n, "src"), n), sp_bin_hdr(n) + n);
}

VP_HARNESS(fixed_bytes)
{
	packer_setup();
	uint32_t n = vp_range("n", 0, 0xfffffffe);
	fixed(as_pack_bytes(&pk, vp_obj(n, "src"), n), sp_str_hdr((uint64_t)n + 1) + 1 + n);
}

VP_HARNESS(fixed_append)
{
	packer_setup();
	uint32_t n = vp_range("n", 0, 0xffffffff);
	fixed(as_pack_append(&pk, vp_obj(n, "src"), n), n);
}

VP_HARNESS(fixed_headers)
{
	packer_setup();
	uint64_t c = vp_split(vp_range("case", 0, 2), 3);
	uint32_t n = vp_u32("n");
	if (c == 0) {
		fixed(as_pack_list_header(&pk, n), sp_cont_hdr(n));
	}
	else if (c == 1) {
		fixed(as_pack_map_header(&pk, n), sp_cont_hdr(n));
	}
	else {
		fixed(as_pack_str(&pk, NULL, n), sp_str_hdr(n));
	}
}

VP_HARNESS(fixed_ext_header)
{
	packer_setup();
	uint32_t n = vp_u32("n");
	fixed(as_pack_ext_header(&pk, n, vp_u8("type")), sp_ext_hdr(n));
}

VP_HARNESS(fixed_buf_ext_header)
{
	packer_setup();
	uint32_t n = vp_u32("n");
	int rc = as_pack_buf_ext_header(buf, cap, n, vp_u8("type"));
	vp_assert((rc == 0) == (sp_ext_hdr(n) <= cap), "success exactly when the header fits");
	vp_assert(at < sp_ext_hdr(n) || buf[at] == was[at], "only the bytes of the header change");
}

// ---------------------------------------------------------------- growing
// The packed stream is the content of the listed buffers in list order followed by the current buffer.  `last` stands
// for the last listed buffer of an arbitrary list; the code only ever touches its next field.
static as_packer_buffer* last;
static as_packer_buffer last_was;
static uint64_t pos;		// observed position of the stream from the start of the current buffer on

static void
grow_setup(bool listed)
{
	packer_setup();
	vp_assume(cap > 0);
	if (listed) {
		last = malloc(sizeof(as_packer_buffer));
		last->next = NULL;
		last->buffer = vp_obj(1, "older");
		last->length = 1;
		pk.head = pk.tail = last;
	}
	else {
		last = NULL;
	}
	pos = vp_u64("pos");
}

static uint8_t
sp_stream(uint64_t i)
{
	uint64_t start = 0;
	uint8_t r = 0;
	for (as_packer_buffer* e = last ? last->next : pk.head; e; e = e->next) {
		if (i >= start && i < start + e->length) {
			r = e->buffer[i - start];
		}
		start += e->length;
	}
	return i >= start ? pk.buffer[i - start] : r;
}

static uint64_t
stream_len(void)
{
	uint64_t n = 0;
	as_packer_buffer* e = last ? last->next : pk.head;
	as_packer_buffer* prev = last;
	while (e) {
		n += e->length;
		prev = e;
		e = e->next;
	}
	vp_assert(pk.tail == prev && (! last || pk.head == last) && (last || prev || pk.head == NULL), "list of full buffers well formed");
	vp_assert(! last || (last->length == 1 && ! vp_freed(last->buffer)), "older buffers kept");
	return n + pk.offset;
}

static void
grown(int rc, uint64_t len)
{
	vp_assert(rc == 0, "packing succeeds");
	vp_assert(stream_len() == off + len, "the stream grows by the bytes of the item");
	vp_assert(pk.offset <= pk.capacity && vp_valid(pk.buffer, pk.capacity), "current buffer valid");
	if (pos < off) {
		vp_assert(sp_stream(pos) == was[pos], "every byte packed so far is kept in order");
	}
}

#define NEW (pos >= off && pos < off + len)

VP_HARNESS(grow_integer)
{
	grow_setup(vp_bool("listed"));
	as_integer v;
	int64_t i = (int64_t)vp_u64("v");
	as_integer_init(&v, i);
	uint64_t len = sp_int_len(i);
	grown(as_pack_val(&pk, (as_val*)&v), len);
	if (NEW) {
		vp_assert(sp_stream(pos) == sp_int_byte(i, pos - off), "bytes of the item follow");
	}
}

VP_HARNESS(grow_small)
{
	grow_setup(vp_bool("listed"));
	uint64_t c = vp_split(vp_range("case", 0, 4), 5);
	as_boolean b;
	as_double d;
	uint64_t bits = vp_u64("bits");
	as_boolean_init(&b, bits & 1);
	as_double_init(&d, 0);
	memcpy(&d.value, &bits, 8);
	const as_val* v = c == 0 ? (as_val*)&as_nil : c == 1 ? (as_val*)&b : c == 2 ? (as_val*)&d : c == 3 ? (as_val*)&as_cmp_inf : (as_val*)&as_cmp_wildcard;
	uint64_t len = c < 2 ? 1 : c == 2 ? 9 : 3;
	grown(as_pack_val(&pk, v), len);
	if (NEW) {
		uint64_t i = pos - off;
		vp_assert(sp_stream(pos) == (c == 0 ? 0xc0 : c == 1 ? ((bits & 1) ? 0xc3 : 0xc2) : c == 2 ? sp_len_byte(0xcb, bits, 8, i)
			: i == 0 ? 0xd4 : i == 1 ? 0xff : c == 3 ? 1 : 0), "bytes of the item follow");
	}
}

static void
grow_blob(uint8_t kind, uint32_t lo, uint32_t hi)
{
	grow_setup(false);
	uint32_t n = vp_range("n", lo, hi);
	as_string s;
	as_geojson g;
	as_bytes b;
	as_val* v;
	uint8_t type = kind;
	uint8_t* src;
	if (kind == AS_BYTES_STRING) {
		src = (uint8_t*)vp_cstr(n, "src");
		v = (as_val*)as_string_init_wlen(&s, (char*)src, n, false);
	}
	else if (kind == AS_BYTES_GEOJSON) {
		src = (uint8_t*)vp_cstr(n, "src");
		v = (as_val*)as_geojson_init_wlen(&g, (char*)src, n, false);
	}
	else {
		src = vp_obj(n, "src");
		v = (as_val*)as_bytes_init_wrap(&b, src, n, false);
		type = vp_u8("type");
		b.type = type;
	}
	uint64_t h = sp_str_hdr((uint64_t)n + 1);
	uint64_t len = h + 1 + n;
	grown(as_pack_val(&pk, v), len);
	if (NEW) {
		uint64_t i = pos - off;
		vp_assert(sp_stream(pos) == (i < h ? sp_str_byte((uint64_t)n + 1, i) : i == h ? type : src[i - h - 1]), "bytes of the item follow");
	}
}

#define GROW(name, kind) \
	VP_HARNESS(grow_##name##_fix) { grow_blob(kind, 0, 30); } \
	VP_HARNESS(grow_##name##_8) { grow_blob(kind, 31, 0xfe); } \
	VP_HARNESS(grow_##name##_16) { grow_blob(kind, 0xff, 0xfffe); } \
	VP_HARNESS(grow_##name##_32) { grow_blob(kind, 0xffff, 0xfffffff0); }

GROW(string, AS_BYTES_STRING)
VP_HARNESS(grow_geojson_fix) { grow_blob(AS_BYTES_GEOJSON, 0, 30); }
VP_HARNESS(grow_geojson_16) { grow_blob(AS_BYTES_GEOJSON, 0xff, 0xfffe); }
GROW(bytes, AS_BYTES_BLOB)

// a failing allocation is reported and everything packed so far is still there
VP_HARNESS(grow_no_memory)
{
	grow_setup(vp_bool("listed"));
	as_bytes b;
	uint32_t n = vp_range("n", 0, 40);
	uint8_t* src = vp_obj(n, "src");
	as_bytes_init_wrap(&b, src, n, false);
	vp_alloc_may_fail(true);
	int rc = as_pack_val(&pk, (as_val*)&b);
	vp_assert((rc == 0) == ! vp_alloc_failed(), "failure exactly when memory is exhausted");
	vp_assert(stream_len() >= off && pk.buffer != NULL, "packed bytes are kept");
	if (pos < off) {
		vp_assert(sp_stream(pos) == was[pos], "every byte packed so far is kept in order");
	}
}
