// P10: base64 encoding and decoding are exact inverses.
#include "vp.h"
#include <citrusleaf/cf_b64.h>

#define MAX_IN 0x5fffffffu	// the encoded length stays below 2^31

// RFC 4648 alphabet
static uint8_t
sp_digit(uint8_t v)
{
	return v < 26 ? 'A' + v : v < 52 ? 'a' + (v - 26) : v < 62 ? '0' + (v - 52) : v == 62 ? '+' : '/';
}

// character r of the encoding of a group that starts with bytes x0 x1 x2, of which len (1..3) exist
static uint8_t
sp_group_char(uint8_t x0, uint8_t x1, uint8_t x2, uint32_t len, uint32_t r)
{
	uint32_t bits = ((uint32_t)x0 << 16) | (len > 1 ? (uint32_t)x1 << 8 : 0) | (len > 2 ? x2 : 0);
	if (r > len) {
		return '=';
	}
	return sp_digit((uint8_t)((bits >> (18 - 6 * r)) & 63));
}

static uint8_t* in;
static uint32_t n;
static char* out;
static uint32_t g, r;		// observed character: number r of group g

static uint8_t
sp_text_char(uint32_t gr, uint32_t i)
{
	uint32_t left = n - 3 * gr;
	uint32_t len = left > 3 ? 3 : left;
	return sp_group_char(in[3 * gr], len > 1 ? in[3 * gr + 1] : 0, len > 2 ? in[3 * gr + 2] : 0, len, i);
}

static bool
encoded_so_far(uint64_t k)
{
	return g >= k || (uint8_t)out[4 * g + r] == sp_text_char(g, r);
}

static void
encode(uint32_t rr)
{
	n = (uint32_t)vp_range("n", 1, MAX_IN);
	in = vp_obj(n, "in");
	uint32_t len = cf_b64_encoded_len(n);
	vp_assert(len == 4 * ((n + 2) / 3), "announced length");
	out = vp_obj(len, "out");
	g = (uint32_t)vp_range("g", 0, MAX_IN);
	r = rr;
	vp_assume(3 * (uint64_t)g < n);
	vp_witness(g);
	vp_inv_n(encoded_so_far);
	vp_cover("precondition");

	uint8_t* before = vp_snap(in, n);
	cf_b64_encode(in, n, out);

	vp_assert((uint8_t)out[4 * g + r] == sp_text_char(g, r), "every character is the standard one");
	vp_assert(in[g] == before[g], "input kept");
}

VP_HARNESS(encode_0) { encode(0); }
VP_HARNESS(encode_1) { encode(1); }
VP_HARNESS(encode_2) { encode(2); }
VP_HARNESS(encode_3) { encode(3); }

VP_HARNESS(encode_empty)
{
	out = vp_obj(1, "out");
	char c = out[0];
	vp_assert(cf_b64_encoded_len(0) == 0, "nothing encodes to nothing");
	in = vp_obj(0, "in");
	cf_b64_encode(in, 0, out);
	vp_assert(out[0] == c, "nothing written");
}

// text: any text that is the standard encoding of in[0..n); the facts are instantiated for the group of the observed
// byte and for the last group
static char* text;
static char* otext;
static uint32_t len;
static uint8_t* res;
static uint32_t q;		// observed byte: number r of group g

static void
encoded_text(void)
{
	n = (uint32_t)vp_range("n", 0, MAX_IN);
	in = vp_obj(n, "in");
	len = 4 * ((n + 2) / 3);
	text = vp_obj(len, "text");
	if (n != 0) {
		g = (uint32_t)vp_range("g", 0, MAX_IN);
		q = 3 * g + r;
		vp_assume(3 * (uint64_t)g + r < n);
		uint32_t l = len / 4 - 1;
		for (uint32_t i = 0; i < 4; i++) {
			text[4 * l + i] = sp_text_char(l, i);
			text[4 * g + i] = sp_text_char(g, i);
		}
		vp_witness(g);
	}
	otext = vp_snap(text, len);
	vp_cover("precondition");
}

static bool
decoded_so_far(uint64_t k)
{
	return g >= k || res[q] == in[q];
}

static void
decode(uint32_t rr)
{
	r = rr;
	encoded_text();
	uint32_t bufsize = cf_b64_decoded_buf_size(len);
	vp_assert(bufsize >= n && bufsize < n + 3, "announced buffer size");
	res = vp_obj(bufsize, "res");
	vp_inv_n(decoded_so_far);
	bool want = vp_bool("want_size");
	uint32_t size = 0xffffffff;
	cf_b64_decode(text, len, res, want ? &size : NULL);
	vp_assert(! want || size == n, "decoded length");
	vp_assert(n == 0 || res[q] == in[q], "every byte restored");
	vp_assert(n == 0 || text[q] == otext[q], "text kept");
}

VP_HARNESS(decode_0) { decode(0); }
VP_HARNESS(decode_1) { decode(1); }
VP_HARNESS(decode_2) { decode(2); }

static bool
decoded_in_place_so_far(uint64_t k)
{
	return g >= k || (uint8_t)text[q] == in[q];
}

static bool
rest_in_place(uint64_t k)
{
	return g < k || (text[4 * g] == otext[4 * g] && text[4 * g + 1] == otext[4 * g + 1] && text[4 * g + 2] == otext[4 * g + 2]
			&& text[4 * g + 3] == otext[4 * g + 3]);
}

static void
decode_in_place(uint32_t rr)
{
	r = rr;
	encoded_text();
	vp_inv_n(decoded_in_place_so_far);
	vp_inv_n(rest_in_place);
	bool want = vp_bool("want_size");
	uint32_t size = 0xffffffff;
	cf_b64_decode_in_place((uint8_t*)text, len, want ? &size : NULL);
	vp_assert(! want || size == n, "decoded length");
	vp_assert(n == 0 || (uint8_t)text[q] == in[q], "every byte restored");
}

VP_HARNESS(decode_in_place_0) { decode_in_place(0); }
VP_HARNESS(decode_in_place_1) { decode_in_place(1); }
VP_HARNESS(decode_in_place_2) { decode_in_place(2); }
