// P04: the serializer returns the concatenation of everything packed.
#include "vp.h"
#include <aerospike/as_msgpack.h>
#include <aerospike/as_msgpack_serializer.h>
#include <aerospike/as_integer.h>
#include <aerospike/as_serializer.h>

static uint32_t nbuf;			// full buffers produced by packing
static uint8_t* seg[4];
static uint32_t seglen[4];
static bool fail, oom;
static as_integer dummy;

int
VP_STUB(as_pack_val)(as_packer* k, const as_val* v)
{
	vp_assert(v == (as_val*)&dummy && k->buffer != NULL && vp_valid(k->buffer, k->capacity) && k->offset == 0 && k->head == NULL && k->tail == NULL,
		"packing starts with an empty packer over valid storage");
	vp_alloc_may_fail(false);
	uint8_t* cur = k->buffer;
	uint32_t room = k->capacity;
	for (uint32_t i = 0; i < nbuf; i++) {
		as_packer_buffer* e = malloc(sizeof(as_packer_buffer));
		e->next = NULL;
		e->buffer = cur;
		e->length = seglen[i] <= room ? seglen[i] : room;
		seglen[i] = e->length;
		vp_havoc(cur, room);
		seg[i] = vp_snap(cur, room);
		if (k->tail) {
			k->tail->next = e;
		}
		else {
			k->head = e;
		}
		k->tail = e;
		room = vp_range("room", 1, 1u << 28);
		cur = malloc(room);
	}
	vp_havoc(cur, room);
	seg[nbuf] = vp_snap(cur, room);
	seglen[nbuf] = seglen[nbuf] <= room ? seglen[nbuf] : room;
	k->buffer = cur;
	k->capacity = room;
	k->offset = seglen[nbuf];
	vp_alloc_may_fail(oom);
	return fail ? 1 : 0;
}

static void
serialize(uint32_t n, bool f, bool no_memory)
{
	nbuf = n;
	fail = f;
	oom = no_memory;
	for (uint32_t i = 0; i <= n; i++) {
		seglen[i] = vp_range("seglen", 0, 1u << 28);
	}
	vp_note("a serialized value spans at most 3 buffers in the concatenation proof (larger lists of buffers are not covered)");
	vp_note("serialized values are smaller than 2^31 bytes");
	as_integer_init(&dummy, 0);
	as_serializer ser;
	as_buffer b;
	b.data = NULL;
	b.size = b.capacity = 0;
	uint64_t pos = vp_u64("pos");
	uint64_t live = vp_live();
	if (oom) {
		vp_alloc_may_fail(true);
	}
	as_msgpack_init(&ser);
	int rc = as_serializer_serialize(&ser, (as_val*)&dummy, &b);
	if (f) {
		vp_assert(rc != 0, "a failed packing is reported");
		vp_assert(vp_live() == live, "nothing leaks");
		return;
	}
	if (oom && vp_alloc_failed()) {
		vp_assert(rc != 0 && vp_live() == live, "out of memory is reported and nothing leaks");
		return;
	}
	uint64_t total = 0;
	for (uint32_t i = 0; i <= n; i++) {
		total += seglen[i];
	}
	vp_assert(rc == 0 && b.size == total && b.capacity >= b.size && vp_valid(b.data, b.capacity), "result has the total size");
	vp_assert(vp_live() == live + 1, "only the result stays allocated");
	uint64_t start = 0;
	for (uint32_t i = 0; i <= n; i++) {
		if (pos >= start && pos < start + seglen[i]) {
			vp_assert(b.data[pos] == seg[i][pos - start], "result is the concatenation of the packed buffers");
		}
		start += seglen[i];
	}
}

VP_HARNESS(serialize_one_buffer)
{
	serialize(0, false, false);
}

VP_HARNESS(serialize_two_buffers)
{
	serialize(1, false, false);
}

VP_HARNESS(serialize_three_buffers)
{
	serialize(2, false, false);
}

VP_HARNESS(serialize_failure)
{
	serialize(vp_split(vp_range("n", 0, 2), 3), true, false);
}

VP_HARNESS(serialize_no_memory)
{
	serialize(vp_split(vp_range("n", 0, 1), 2), false, true);
}
