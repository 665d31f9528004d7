// P11: base64 validation accepts exactly well-formed text.
#include "vp.h"
#include <citrusleaf/cf_b64.h>

#define MAX_LEN 0x7ffffffcu

static bool
sp_alphabet(uint8_t c)
{
	return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || c == '+' || c == '/';
}

static uint32_t len;
static uint8_t* text;
static uint32_t pos;

// the text up to (and not including) the last two characters is in the alphabet
static bool
body_ok(uint64_t off, uint64_t byte)
{
	return (len & 3) != 0 || off + 2 >= len || sp_alphabet((uint8_t)byte);
}

static bool
sp_tail_ok(uint8_t x, uint8_t y)
{
	return (x == '=' && y == '=') || (sp_alphabet(x) && (y == '=' || sp_alphabet(y)));
}

// the loop has seen only good characters before position n
static bool
good_so_far(uint64_t n)
{
	return pos >= n || sp_alphabet(text[pos]);
}

// value of a character: alphabet position, anything else counts as zero
static uint8_t
sp_value(uint8_t c)
{
	return c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 : c == '+' ? 62 : c == '/' ? 63 : 0;
}

static uint8_t* copy;
static uint8_t* out;
static uint32_t g;

static bool
decoded(void)
{
	uint32_t v = ((uint32_t)sp_value(copy[4 * g]) << 18) | ((uint32_t)sp_value(copy[4 * g + 1]) << 12)
			| ((uint32_t)sp_value(copy[4 * g + 2]) << 6) | sp_value(copy[4 * g + 3]);
	return out[3 * g] == (uint8_t)(v >> 16) && out[3 * g + 1] == (uint8_t)(v >> 8) && out[3 * g + 2] == (uint8_t)v;
}

static bool
decoded_so_far(uint64_t n)
{
	return g >= n || decoded();
}

static bool
rest_in_place(uint64_t n)
{
	return out != text || g < n || (text[4 * g] == copy[4 * g] && text[4 * g + 1] == copy[4 * g + 1] && text[4 * g + 2] == copy[4 * g + 2]
			&& text[4 * g + 3] == copy[4 * g + 3]);
}

static bool
run(bool in_place, bool content)
{
	copy = vp_snap(text, len);
	g = vp_u32("g");
	vp_assume(g < len / 4 || len < 4);
	if (content) {
		vp_inv_clear();
		vp_witness(g);
		vp_inv_n(decoded_so_far);
		vp_inv_n(rest_in_place);
	}
	uint32_t size = 0xfefefefe;
	out = in_place ? text : vp_obj(cf_b64_decoded_buf_size(len), "out");
	bool ok = in_place ? cf_b64_validate_and_decode_in_place(text, len, &size) : cf_b64_validate_and_decode((char*)text, len, out, &size);

	if (ok) {
		vp_assert(len >= 4 && size == len / 4 * 3 - (copy[len - 1] == '=') - (copy[len - 2] == '='), "decoded length");
		vp_assert(! content || decoded(), "accepted text is decoded");
	}
	else {
		vp_assert(size == 0xfefefefe, "no length reported on rejection");
		vp_assert(g >= len || text[g] == copy[g], "rejected text is kept");
	}
	return ok;
}

// accepted => well formed (at every position)
static void
accepted(bool in_place)
{
	len = (uint32_t)vp_range("len", 0, MAX_LEN);
	text = vp_obj(len, "text");
	pos = vp_u32("pos");
	vp_assume(pos < len || len == 0);
	vp_witness(pos);
	vp_inv_n(good_so_far);
	vp_cover("precondition");

	if (run(in_place, false)) {
		vp_cover("accepted");
		vp_assert(len != 0 && (len & 3) == 0, "accepted length is a positive multiple of four");
		vp_assert(pos + 2 >= len || sp_alphabet(copy[pos]), "accepted characters are in the alphabet");
		vp_assert(sp_tail_ok(copy[len - 2], copy[len - 1]), "padding only at the end");
	}
}

VP_HARNESS(accepted_only_well_formed) { accepted(false); }
VP_HARNESS(accepted_only_well_formed_in_place) { accepted(true); }

// what an accepted text decodes to
static void
content(bool in_place)
{
	len = (uint32_t)vp_range("len", 0, MAX_LEN);
	text = vp_obj(len, "text");
	if (run(in_place, true)) {
		vp_cover("accepted");
	}
}

VP_HARNESS(content_of_accepted) { content(false); }
VP_HARNESS(content_of_accepted_in_place) { content(true); }

// well formed => accepted
static void
well_formed(bool in_place)
{
	len = (uint32_t)vp_range("len", 1, MAX_LEN);
	vp_assume((len & 3) == 0);
	text = vp_obj_where(len, "text", body_ok);
	uint8_t x = vp_u8("x"), y = vp_u8("y");
	vp_assume(sp_tail_ok(x, y));
	text[len - 2] = x;
	text[len - 1] = y;
	vp_cover("precondition");
	vp_assert(run(in_place, false), "well formed text is accepted");
}

VP_HARNESS(well_formed_is_accepted) { well_formed(false); }
VP_HARNESS(well_formed_is_accepted_in_place) { well_formed(true); }

VP_HARNESS(missing_text)
{
	uint32_t size = 0xfefefefe;
	uint8_t out[4];
	vp_assert(! cf_b64_validate_and_decode(NULL, vp_u32("len"), out, &size), "missing text is rejected");
	vp_assert(size == 0xfefefefe, "no length reported on rejection");
}
