// P05: packed bytes follow the MessagePack format.
#include "mp.h"
#include <aerospike/as_nil.h>
#include <aerospike/as_boolean.h>
#include <aerospike/as_integer.h>
#include <aerospike/as_double.h>

// ---------------------------------------------------------------- writing
#define FITS(len) vp_assume((uint64_t)off + (len) <= cap)

static void
wrote(int rc, uint64_t len)
{
	vp_assert(rc == 0, "an item that fits is packed");
	vp_assert(pk.buffer == buf && pk.offset == off + len, "position moves by the bytes of the item");
}

#define IN(len) (at >= off && at < (uint64_t)off + (len))

VP_HARNESS(write_uint64)
{
	packer_setup();
	uint64_t v = vp_u64("v");
	FITS(sp_uint_len(v));
	wrote(as_pack_uint64(&pk, v), sp_uint_len(v));
	if (IN(sp_uint_len(v))) {
		vp_assert(buf[at] == sp_uint_byte(v, at - off), "shortest form of an unsigned integer");
	}
}

VP_HARNESS(write_int64)
{
	packer_setup();
	int64_t v = (int64_t)vp_u64("v");
	FITS(sp_int_len(v));
	wrote(as_pack_int64(&pk, v), sp_int_len(v));
	if (IN(sp_int_len(v))) {
		vp_assert(buf[at] == sp_int_byte(v, at - off), "shortest form of an integer");
	}
}

VP_HARNESS(write_fixed)
{
	packer_setup();
	uint64_t c = vp_split(vp_range("case", 0, 3), 4);
	bool b = vp_bool("b");
	FITS(c < 2 ? 1 : 3);
	wrote(c == 0 ? as_pack_nil(&pk) : c == 1 ? as_pack_bool(&pk, b) : c == 2 ? as_pack_cmp_inf(&pk) : as_pack_cmp_wildcard(&pk), c < 2 ? 1 : 3);
	if (IN(c < 2 ? 1 : 3)) {
		uint64_t i = at - off;
		vp_assert(buf[at] == (c == 0 ? 0xc0 : c == 1 ? (b ? 0xc3 : 0xc2) : i == 0 ? 0xd4 : i == 1 ? 0xff : c == 2 ? 1 : 0),
			"nil, boolean and comparison markers");
	}
}

VP_HARNESS(write_float)
{
	packer_setup();
	uint32_t bits = vp_u32("bits");
	float f;
	memcpy(&f, &bits, 4);
	FITS(5);
	wrote(as_pack_float(&pk, f), 5);
	if (IN(5)) {
		vp_assert(buf[at] == sp_len_byte(0xca, bits, 4, at - off), "float in big-endian order");
	}
}

VP_HARNESS(write_double)
{
	packer_setup();
	uint64_t bits = vp_u64("bits");
	double f;
	memcpy(&f, &bits, 8);
	FITS(9);
	wrote(as_pack_double(&pk, f), 9);
	if (IN(9)) {
		vp_assert(buf[at] == sp_len_byte(0xcb, bits, 8, at - off), "double in big-endian order");
	}
}

VP_HARNESS(write_str)
{
	packer_setup();
	uint32_t n = vp_range("n", 0, 0xffffffff);
	uint8_t* src = vp_obj(n, "src");
	uint64_t h = sp_str_hdr(n);
	FITS(h + n);
	wrote(as_pack_str(&pk, src, n), h + n);
	if (IN(h + n)) {
		uint64_t i = at - off;
		vp_assert(buf[at] == (i < h ? sp_str_byte(n, i) : src[i - h]), "string header and content");
	}
}

VP_HARNESS(write_str_header_only)
{
	packer_setup();
	uint32_t n = vp_u32("n");
	uint64_t h = sp_str_hdr(n);
	FITS(h);
	wrote(as_pack_str(&pk, NULL, n), h);
	if (IN(h)) {
		vp_assert(buf[at] == sp_str_byte(n, at - off), "string header");
	}
}

VP_HARNESS(write_bin)
{
	packer_setup();
	uint32_t n = vp_range("n", 0, 0xffffffff);
	uint8_t* src = vp_obj(n, "src");
	uint64_t h = sp_bin_hdr(n);
	FITS(h + n);
	wrote(as_pack_bin(&pk, src, n), h + n);
	if (IN(h + n)) {
		uint64_t i = at - off;
		vp_assert(buf[at] == (i < h ? sp_bin_byte(n, i) : src[i - h]), "binary header and content");
	}
}

VP_HARNESS(write_bin_header_only)
{
	packer_setup();
	uint32_t n = vp_u32("n");
	uint64_t h = sp_bin_hdr(n);
	FITS(h);
	wrote(as_pack_bin(&pk, NULL, n), h);
	if (IN(h)) {
		vp_assert(buf[at] == sp_bin_byte(n, at - off), "binary header");
	}
}

// a blob is a string header over a type byte and the content
VP_HARNESS(write_bytes)
{
	packer_setup();
	uint32_t n = vp_range("n", 0, 0xfffffffe);
	uint8_t* src = vp_obj(n, "src");
	uint64_t h = sp_str_hdr((uint64_t)n + 1);
	FITS(h + 1 + n);
	wrote(as_pack_bytes(&pk, src, n), h + 1 + n);
	if (IN(h + 1 + n)) {
		uint64_t i = at - off;
		vp_assert(buf[at] == (i < h ? sp_str_byte((uint64_t)n + 1, i) : i == h ? AS_BYTES_BLOB : src[i - h - 1]), "blob header, type and content");
	}
}

VP_HARNESS(write_list_header)
{
	packer_setup();
	uint32_t n = vp_u32("n");
	FITS(sp_cont_hdr(n));
	wrote(as_pack_list_header(&pk, n), sp_cont_hdr(n));
	if (IN(sp_cont_hdr(n))) {
		vp_assert(buf[at] == sp_cont_byte(false, n, at - off), "list header");
	}
}

VP_HARNESS(write_map_header)
{
	packer_setup();
	uint32_t n = vp_u32("n");
	FITS(sp_cont_hdr(n));
	wrote(as_pack_map_header(&pk, n), sp_cont_hdr(n));
	if (IN(sp_cont_hdr(n))) {
		vp_assert(buf[at] == sp_cont_byte(true, n, at - off), "map header");
	}
}

VP_HARNESS(write_ext_header)
{
	packer_setup();
	uint32_t n = vp_u32("n");
	uint8_t t = vp_u8("type");
	FITS(sp_ext_hdr(n));
	wrote(as_pack_ext_header(&pk, n, t), sp_ext_hdr(n));
	if (IN(sp_ext_hdr(n))) {
		vp_assert(buf[at] == sp_ext_byte(n, t, at - off), "extension header");
	}
}

VP_HARNESS(write_buf_ext_header)
{
	packer_setup();
	uint32_t n = vp_u32("n");
	uint8_t t = vp_u8("type");
	vp_assume(sp_ext_hdr(n) <= cap);
	vp_assert(as_pack_buf_ext_header(buf, cap, n, t) == 0, "an item that fits is packed");
	vp_assert(buf[at] == (at < sp_ext_hdr(n) ? sp_ext_byte(n, t, at) : was[at]), "extension header");
}

VP_HARNESS(write_append)
{
	packer_setup();
	uint32_t n = vp_range("n", 0, 0xffffffff);
	uint8_t* src = vp_obj(n, "src");
	FITS(n);
	wrote(as_pack_append(&pk, src, n), n);
	if (IN(n)) {
		vp_assert(buf[at] == src[at - off], "content as given");
	}
}

VP_HARNESS(write_val_integer)
{
	packer_setup();
	as_integer v;
	int64_t i = (int64_t)vp_u64("v");
	as_integer_init(&v, i);
	FITS(sp_int_len(i));
	wrote(as_pack_val(&pk, (as_val*)&v), sp_int_len(i));
	if (IN(sp_int_len(i))) {
		vp_assert(buf[at] == sp_int_byte(i, at - off), "shortest form of an integer");
	}
}

// ---------------------------------------------------------------- reading
static as_unpacker up;
static uint8_t* in;
static uint32_t len;
static uint64_t left;
static const uint8_t* p;

static void
unpacker_setup(void)
{
	len = vp_range("length", 0, 0xffffffff);
	uint32_t o = vp_range("position", 0, 0xffffffff);
	vp_assume(o < len);
	in = vp_obj(len, "input");
	up.buffer = in;
	up.offset = o;
	up.length = len;
	p = in + o;
	left = len - o;
	off = o;
	vp_assume(left >= 1 + sp_field(*p));	// the form is complete
	vp_cover("precondition");
}

VP_HARNESS(read_uint64)
{
	unpacker_setup();
	uint32_t f = sp_family(*p);
	uint64_t v = 0;
	int rc = as_unpack_uint64(&up, &v);
	vp_assert((rc == 0) == (f == F_UINT || f == F_INT), "exactly the integer forms are accepted");
	if (rc == 0) {
		vp_assert(v == sp_number(p), "the number denoted");
		vp_assert(up.offset == off + 1 + sp_field(*p), "exactly the form is consumed");
	}
}

VP_HARNESS(read_int64)
{
	unpacker_setup();
	uint32_t f = sp_family(*p);
	int64_t v = 0;
	int rc = as_unpack_int64(&up, &v);
	vp_assert((rc == 0) == (f == F_UINT || f == F_INT), "exactly the integer forms are accepted");
	if (rc == 0) {
		vp_assert((uint64_t)v == sp_number(p), "the number denoted");
		vp_assert(up.offset == off + 1 + sp_field(*p), "exactly the form is consumed");
	}
}

VP_HARNESS(read_double)
{
	unpacker_setup();
	double d = 0;
	int rc = as_unpack_double(&up, &d);
	vp_assert((rc == 0) == (sp_family(*p) == F_FLOAT), "exactly the float forms are accepted");
	if (rc == 0) {
		uint64_t bits;
		memcpy(&bits, &d, 8);
		if (*p == 0xcb) {
			vp_assert(bits == sp_be(p + 1, 8), "the double denoted");
		}
		else {
			uint32_t fb = (uint32_t)sp_be(p + 1, 4);
			float f;
			memcpy(&f, &fb, 4);
			vp_assert(d == (double)f || f != f, "the float denoted");
		}
		vp_assert(up.offset == off + 1 + sp_field(*p), "exactly the form is consumed");
	}
}

VP_HARNESS(read_fixed)
{
	unpacker_setup();
	bool b = false;
	if (vp_bool("nil")) {
		int rc = as_unpack_nil(&up);
		vp_assert((rc == 0) == (*p == 0xc0), "exactly nil is accepted");
	}
	else {
		int rc = as_unpack_boolean(&up, &b);
		vp_assert((rc == 0) == (*p == 0xc2 || *p == 0xc3), "exactly booleans are accepted");
		vp_assert(rc != 0 || b == (*p == 0xc3), "the boolean denoted");
	}
	vp_assert(up.offset == off + 1, "exactly the form is consumed");
}

static void
content(bool bin)
{
	unpacker_setup();
	uint32_t f = sp_family(*p);
	uint32_t n = 0;
	const uint8_t* r = bin ? as_unpack_bin(&up, &n) : as_unpack_str(&up, &n);
	bool form = f == F_STR || f == F_BIN;
	uint64_t size = sp_item_size(p, left);
	if (form && size != 0) {
		vp_assert(r == p + 1 + sp_field(*p) && n == sp_count(p), "the content denoted");
		vp_assert(up.offset == off + size, "exactly the form is consumed");
	}
	else {
		vp_assert(r == NULL, "other forms are refused");
	}
}

VP_HARNESS(read_str)
{
	content(false);
}

VP_HARNESS(read_bin)
{
	content(true);
}

VP_HARNESS(read_blob_size)
{
	unpacker_setup();
	uint32_t f = sp_family(*p);
	int64_t r = as_unpack_blob_size(&up);
	if (f == F_STR || f == F_BIN) {
		vp_assert(r == (int64_t)sp_count(p), "the length denoted");
		vp_assert(up.offset == off + 1 + sp_field(*p), "the header is consumed");
	}
	else {
		vp_assert(r < 0, "other forms are refused");
	}
}

VP_HARNESS(read_ext)
{
	unpacker_setup();
	as_msgpack_ext ext;
	int rc = as_unpack_ext(&up, &ext);
	if (sp_family(*p) == F_EXT && sp_item_size(p, left) != 0) {
		uint64_t h = 1 + sp_field(*p);
		vp_assert(rc == 0, "every extension form is accepted");
		vp_assert(ext.size == sp_count(p) && ext.type == p[h] && ext.type_offset == off + h && ext.data == p + h + 1, "the extension denoted");
		vp_assert(up.offset == off + h + 1 + sp_count(p), "exactly the form is consumed");
	}
	else {
		vp_assert(rc != 0, "other forms are refused");
	}
}

static void
counted(int64_t r, uint32_t family, bool moves)
{
	if (sp_family(*p) == family) {
		vp_assert(r == (int64_t)sp_count(p), "the element count denoted");
		vp_assert(! moves || up.offset == off + 1 + sp_field(*p), "the header is consumed");
	}
	else {
		vp_assert(r < 0, "other forms are refused");
	}
}

VP_HARNESS(read_list_header)
{
	unpacker_setup();
	if (vp_bool("buf")) {
		counted(as_unpack_buf_list_element_count(p, left), F_LIST, false);
	}
	else {
		counted(as_unpack_list_header_element_count(&up), F_LIST, true);
	}
}

VP_HARNESS(read_map_header)
{
	unpacker_setup();
	if (vp_bool("buf")) {
		counted(as_unpack_buf_map_element_count(p, left), F_MAP, false);
	}
	else {
		counted(as_unpack_map_header_element_count(&up), F_MAP, true);
	}
}

VP_HARNESS(peek)
{
	unpacker_setup();
	uint32_t f = sp_family(*p);
	vp_assert(as_unpack_peek_is_ext(&up) == (f == F_EXT), "extensions are recognized");
	vp_assume(f != F_STR && f != F_BIN && f != F_EXT);
	as_val_t t = vp_bool("buf") ? as_unpack_buf_peek_type(p, left) : as_unpack_peek_type(&up);
	vp_assert(t == (f == F_NIL ? AS_NIL : f == F_BOOL ? AS_BOOLEAN : f == F_UINT || f == F_INT ? AS_INTEGER : f == F_FLOAT ? AS_DOUBLE
		: f == F_LIST ? AS_LIST : f == F_MAP ? AS_MAP : AS_UNDEF), "type of the form");
	vp_assert(up.offset == off, "peeking does not move");
}

VP_HARNESS(peek_blob)
{
	unpacker_setup();
	uint32_t f = sp_family(*p);
	vp_assume(f == F_STR || f == F_BIN || f == F_EXT);
	vp_assume(sp_item_size(p, left) != 0);
	as_val_t t = as_unpack_peek_type(&up);
	uint64_t h = 1 + sp_field(*p);
	if (f == F_EXT) {
		as_val_t want = *p == 0xd4 && p[1] == 0xff ? (p[2] == 0 ? AS_CMP_WILDCARD : p[2] == 1 ? AS_CMP_INF : AS_CMP_EXT) : AS_CMP_EXT;
		vp_assert(t == want, "type of an extension");
	}
	else {
		uint8_t bt = sp_count(p) ? p[h] : 0;
		vp_assert(t == (bt == AS_BYTES_STRING ? AS_STRING : bt == AS_BYTES_GEOJSON ? AS_GEOJSON : AS_BYTES), "type of a blob");
	}
	vp_assert(up.offset == off, "peeking does not move");
}
