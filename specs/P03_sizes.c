// P03: announced sizes equal the bytes serialization writes.
#include "mp.h"
#include <aerospike/as_nil.h>
#include <aerospike/as_boolean.h>
#include <aerospike/as_integer.h>
#include <aerospike/as_double.h>
#include <aerospike/as_string.h>
#include <aerospike/as_geojson.h>
#include <aerospike/as_bytes.h>
#include <aerospike/as_arraylist.h>
#include <aerospike/as_orderedmap.h>
#include <aerospike/as_pair.h>
#include <aerospike/as_msgpack_ext.h>
#include <aerospike/as_msgpack_serializer.h>

// ---------------------------------------------------------------- direct packing
static void
count_setup(void)
{
	memset(&pk, 0, sizeof(pk));
	off = vp_u32("offset");
	pk.offset = off;
}

// the same call once into a buffer of ample room and once in counting mode (no buffer)
#define SIZE(announced, call) \
	uint32_t want = announced; \
	if (vp_bool("count")) { \
		count_setup(); \
	} \
	else { \
		packer_setup(); \
		vp_assume((uint64_t)off + want <= cap); \
	} \
	vp_assert(call == 0 && (uint32_t)(pk.offset - off) == want, "announced size is the size packed")

VP_HARNESS(size_uint64)
{
	uint64_t v = vp_u64("v");
	SIZE(as_pack_uint64_size(v), as_pack_uint64(&pk, v));
}

VP_HARNESS(size_int64)
{
	int64_t v = (int64_t)vp_u64("v");
	SIZE(as_pack_int64_size(v), as_pack_int64(&pk, v));
}

VP_HARNESS(size_str)
{
	uint32_t n = vp_range("n", 0, 0xfffffff0);
	uint8_t* src = vp_obj(n, "src");
	SIZE(as_pack_str_size(n), as_pack_str(&pk, src, n));
}

VP_HARNESS(size_bin)
{
	uint32_t n = vp_range("n", 0, 0xfffffff0);
	uint8_t* src = vp_obj(n, "src");
	SIZE(as_pack_bin_size(n), as_pack_bin(&pk, src, n));
}

VP_HARNESS(size_list_header)
{
	uint32_t n = vp_u32("n");
	SIZE(as_pack_list_header_get_size(n), as_pack_list_header(&pk, n));
}

VP_HARNESS(size_map_header)
{
	uint32_t n = vp_u32("n");
	SIZE(as_pack_map_header_get_size(n), as_pack_map_header(&pk, n));
}

VP_HARNESS(size_ext_header)
{
	uint32_t n = vp_u32("n");
	SIZE(as_pack_ext_header_get_size(n), as_pack_ext_header(&pk, n, vp_u8("type")));
}

// ---------------------------------------------------------------- values through the serializer
static as_serializer ser;

static void
presized(const as_val* v)
{
	as_msgpack_init(&ser);
	uint32_t n = as_serializer_serialize_getsize(&ser, (as_val*)v);
	uint8_t* b = vp_obj(n, "out");
	vp_assert(n > 0 && n <= 0x7fffffff, "size is reported");
	int32_t m = as_serializer_serialize_presized(&ser, v, b);	// writes outside b are obligations
	vp_assert(m >= 0 && (uint32_t)m == n, "announced size is the size written");
}

VP_HARNESS(value_integer)
{
	as_integer v;
	as_integer_init(&v, (int64_t)vp_u64("v"));
	presized((as_val*)&v);
}

VP_HARNESS(value_small)
{
	uint64_t c = vp_split(vp_range("case", 0, 4), 5);
	as_boolean b;
	as_double d;
	uint64_t bits = vp_u64("bits");
	as_boolean_init(&b, bits & 1);
	as_double_init(&d, 0);
	memcpy(&d.value, &bits, 8);
	presized(c == 0 ? (as_val*)&as_nil : c == 1 ? (as_val*)&b : c == 2 ? (as_val*)&d : c == 3 ? &as_cmp_inf : &as_cmp_wildcard);
}

VP_HARNESS(value_string)
{
	uint32_t n = vp_range("n", 0, 0x7ffffff0);
	as_string s;
	as_string_init(&s, vp_cstr(n, "src"), false);
	presized((as_val*)&s);
}

VP_HARNESS(value_geojson)
{
	uint32_t n = vp_range("n", 0, 0x7ffffff0);
	as_geojson s;
	as_geojson_init(&s, vp_cstr(n, "src"), false);
	presized((as_val*)&s);
}

VP_HARNESS(value_bytes)
{
	uint32_t n = vp_range("n", 0, 0x7ffffff0);
	as_bytes b;
	as_bytes_init_wrap(&b, vp_obj(n, "src"), n, false);
	presized((as_val*)&b);
}

// ---------------------------------------------------------------- containers, by induction over the nesting
// Packing the k-th element moves the position by total(k + 1) - total(k), in counting and in writing mode alike
// (induction hypothesis).
static uint64_t calls;
static uint32_t start;

static uint32_t
sp_total(uint64_t k)
{
	return (uint32_t)vp_uf1("total", k);
}

int
VP_RECURSIVE(as_pack_val)(as_packer* p, const as_val* v)
{
	p->offset += sp_total(calls + 1) - sp_total(calls);
	calls++;
	return 0;
}

static bool
follows(uint64_t n, uint64_t v)
{
	return (uint32_t)v == (uint32_t)(start + sp_total(n) - sp_total(0));
}

static bool
follows2(uint64_t n, uint64_t v)
{
	return (uint32_t)v == (uint32_t)(start + sp_total(2 * n) - sp_total(0));
}

static uint32_t
measure(const as_val* v, bool counting, uint32_t hdr)
{
	if (counting) {
		count_setup();
	}
	else {
		packer_setup();
		vp_assume((uint64_t)off + hdr <= cap);
	}
	calls = 0;
	start = off + hdr;
	vp_assert(as_pack_val(&pk, v) == 0, "packing succeeds");
	return pk.offset - off;
}

static as_val*
element(void)
{
	as_integer* i = malloc(sizeof(as_integer));
	return (as_val*)as_integer_init(i, (int64_t)vp_u64("element"));
}

VP_HARNESS(value_list)
{
	as_arraylist l;
	as_arraylist_init(&l, 0, 0);
	l.size = vp_range("size", 0, vp_bounded() ? 3 : 1u << 30);
	l.capacity = l.size;
	l.elements = vp_obj((size_t)l.size * 8, "elements");
	for (uint32_t i = 0; vp_bounded() && i < l.size; i++) {
		l.elements[i] = element();
	}
	uint32_t hdr = sp_cont_hdr(l.size);
	vp_inv_nv(follows);
	uint32_t n = measure((as_val*)&l, vp_bool("count"), hdr);
	if (! vp_bounded()) {
		vp_assert(calls == l.size && n == (uint32_t)(hdr + sp_total(l.size) - sp_total(0)), "header and every element are counted once");
	}
}

static void
map_size(bool ordered, bool counting)
{
	as_orderedmap m;
	as_orderedmap_init(&m, 0);
	uint32_t count = vp_range("count", 0, vp_bounded() ? 3 : 1u << 28);
	m.count = m.capacity = count;
	m.table = vp_obj((size_t)count * sizeof(map_entry), "table");
	for (uint32_t i = 0; vp_bounded() && i < count; i++) {
		m.table[i].key = element();
		m.table[i].value = element();
	}
	m._.flags = ordered ? AS_PACKED_MAP_FLAG_K_ORDERED : 0;
	uint32_t hdr = sp_cont_hdr((uint64_t)count + ordered) + (ordered ? sp_ext_hdr(0) + 1 : 0);
	vp_inv_nv(follows2);
	uint32_t n = measure((as_val*)&m, counting, hdr);
	if (! vp_bounded()) {
		vp_assert(calls == 2 * count && n == (uint32_t)(hdr + sp_total(2 * (uint64_t)count) - sp_total(0)), "header and every entry are counted once");
	}
}

VP_HARNESS(value_map_count)
{
	map_size(false, true);
}

VP_HARNESS(value_map_write)
{
	map_size(false, false);
}

VP_HARNESS(value_ordered_map_count)
{
	map_size(true, true);
}

VP_HARNESS(value_ordered_map_write)
{
	map_size(true, false);
}

VP_HARNESS(value_pair)
{
	as_pair p;
	as_pair_init(&p, element(), element());
	uint32_t n = measure((as_val*)&p, vp_bool("count"), 1);
	if (! vp_bounded()) {
		vp_assert(calls == 2 && n == (uint32_t)(1 + sp_total(2) - sp_total(0)), "header and both elements are counted once");
	}
}
