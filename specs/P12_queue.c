// P12: as_queue is an exact double-ended queue.
//
// Data invariant of a queue: capacity and item_size positive, capacity * item_size bounded, head <= tail,
// tail - head <= capacity, tail below the unwrap mark, data a live block of capacity * item_size bytes (heap block of
// its own when ITEMS_ON_HEAP).  Abstract value: the sequence item(0) .. item(size - 1).
#include "vp.h"
#include <aerospike/as_queue.h>

#define MAX_CAP (1u << 28)
#define MARK 0x3fffffff
#define ON_HEAP 1

static as_queue* q;
static as_queue old;
static uint8_t* old_data;
static uint8_t* it;
static uint32_t n, k, b;

static uint8_t
item(as_queue* p, uint8_t* data, uint32_t i, uint32_t j)
{
	uint32_t slot = p->head % p->capacity + i;	// i <= capacity
	if (slot >= p->capacity) {
		slot -= p->capacity;
	}
	return data[(size_t)slot * p->item_size + j];
}

// any state allowed by the invariant, any item, any observed position (k, b)
static void
setup(uint32_t flags)
{
	q = malloc(sizeof(as_queue));
	uint32_t cap = vp_range("capacity", 1, MAX_CAP);
	uint32_t isz = vp_range("item_size", 1, 1u << 16);
	uint32_t head = vp_range("head", 0, MARK);
	uint32_t size = vp_range("size", 0, MAX_CAP);
	vp_assume(size <= cap && head + size <= MARK);
	size_t bytes = (size_t)cap * isz;
	vp_assume(bytes <= (1u << 30));
	q->data = vp_obj(bytes, "data");
	q->capacity = cap;
	q->head = head;
	q->tail = head + size;
	q->item_size = isz;
	q->total = vp_u32("total");
	q->flags = flags;
	old = *q;
	old_data = vp_snap(q->data, bytes);
	n = size;
	it = vp_obj(isz, "item");
	k = vp_range("k", 0, MAX_CAP);
	b = vp_range("b", 0, (1u << 16) - 1);
	vp_assume(b < isz);
	vp_cover("precondition");
}

static bool
inv(as_queue* p)
{
	return p->capacity > 0 && p->item_size > 0 && p->head <= p->tail && p->tail - p->head <= p->capacity
		&& p->tail <= MARK && vp_valid(p->data, (size_t)p->capacity * p->item_size);
}

static void
unchanged(void)
{
	vp_assert(inv(q) && as_queue_size(q) == n && q->item_size == old.item_size, "refused operation keeps the queue");
	if (k < n) {
		vp_assert(item(q, q->data, k, b) == item(&old, old_data, k, b), "refused operation keeps the items");
	}
}

static void
pushed_tail(bool ok)
{
	vp_assert(ok, "push succeeds");
	vp_assert(inv(q), "data invariant");
	vp_assert(q->item_size == old.item_size && q->total == old.total, "item size kept");
	vp_assert(as_queue_size(q) == n + 1, "size grows by one");
	vp_assert((q->flags & ~ON_HEAP) == (old.flags & ~ON_HEAP), "ownership of the queue kept");
	vp_assert(((q->flags & ON_HEAP) != 0) == ((old.flags & ON_HEAP) != 0 || n == old.capacity), "ownership of the storage");

	if (k < n) {
		vp_assert(item(q, q->data, k, b) == item(&old, old_data, k, b), "other items keep content and order");
	}
	vp_assert(item(q, q->data, n, b) == it[b], "new item is last");
}

static void
pushed_head(bool ok)
{
	vp_assert(ok, "push succeeds");
	vp_assert(inv(q), "data invariant");
	vp_assert(q->item_size == old.item_size, "item size kept");
	vp_assert(as_queue_size(q) == n + 1, "size grows by one");

	if (k < n) {
		vp_assert(item(q, q->data, k + 1, b) == item(&old, old_data, k, b), "other items keep content and order");
	}
	vp_assert(item(q, q->data, 0, b) == it[b], "new item is first");
}

static void
storage(uint64_t live)
{
	vp_assert(vp_live() == live, "no storage leaked or lost");
	if (old.flags & ON_HEAP) {
		vp_assert(vp_heap(q->data) && (q->data == old.data || vp_freed(old.data)), "old heap storage released");
	}
	else {
		vp_assert(! vp_freed(old.data), "storage on the stack is not released");
	}
}

VP_HARNESS(push_room)
{
	setup(vp_bool("heap") ? ON_HEAP : 0);
	vp_assume(n < q->capacity);
	uint64_t live = vp_live();
	pushed_tail(as_queue_push(q, it));
	vp_assert(vp_live() == live && q->data == old.data && q->capacity == old.capacity, "no reallocation while there is room");
}

VP_HARNESS(push_grow_heap)
{
	setup(ON_HEAP);
	vp_assume(n == q->capacity);
	uint64_t live = vp_live();
	pushed_tail(as_queue_push(q, it));
	storage(live);
}

VP_HARNESS(push_grow_stack)
{
	setup(0);
	vp_assume(n == q->capacity);
	uint64_t live = vp_live();
	pushed_tail(as_queue_push(q, it));
	storage(live + 1);
}

VP_HARNESS(push_no_memory)
{
	setup(vp_bool("heap") ? ON_HEAP : 0);
	vp_alloc_may_fail(true);
	bool ok = as_queue_push(q, it);
	vp_alloc_may_fail(false);
	vp_assume(vp_alloc_failed());
	vp_cover("allocation failed");
	vp_assert(! ok, "failed growth is reported");
	unchanged();
}

VP_HARNESS(push_limit)
{
	setup(vp_bool("heap") ? ON_HEAP : 0);
	uint64_t live = vp_live();
	bool ok = as_queue_push_limit(q, it);
	vp_assert(vp_live() == live && q->data == old.data && q->capacity == old.capacity, "limited push never grows");

	if (n == old.capacity) {
		vp_assert(! ok, "full queue refuses");
		unchanged();
	}
	else {
		pushed_tail(ok);
	}
}

VP_HARNESS(push_head_room)
{
	setup(vp_bool("heap") ? ON_HEAP : 0);
	vp_assume(n < q->capacity);
	uint64_t live = vp_live();
	pushed_head(as_queue_push_head(q, it));
	vp_assert(vp_live() == live && q->data == old.data && q->capacity == old.capacity, "no reallocation while there is room");
}

VP_HARNESS(push_head_grow_heap)
{
	setup(ON_HEAP);
	vp_assume(n == q->capacity);
	uint64_t live = vp_live();
	pushed_head(as_queue_push_head(q, it));
	storage(live);
}

VP_HARNESS(push_head_grow_stack)
{
	setup(0);
	vp_assume(n == q->capacity);
	uint64_t live = vp_live();
	pushed_head(as_queue_push_head(q, it));
	storage(live + 1);
}

VP_HARNESS(push_head_limit)
{
	setup(vp_bool("heap") ? ON_HEAP : 0);
	uint64_t live = vp_live();
	bool ok = as_queue_push_head_limit(q, it);
	vp_assert(vp_live() == live && q->data == old.data && q->capacity == old.capacity, "limited push never grows");

	if (n == old.capacity) {
		vp_assert(! ok, "full queue refuses");
		unchanged();
	}
	else {
		pushed_head(ok);
	}
}

VP_HARNESS(pop)
{
	setup(vp_bool("heap") ? ON_HEAP : 0);
	uint8_t* before = vp_snap(it, q->item_size);
	bool ok = as_queue_pop(q, it);
	vp_assert(ok == (n > 0), "pop succeeds exactly when an item is held");

	if (! ok) {
		unchanged();
		vp_assert(it[b] == before[b], "nothing copied out");
		return;
	}
	vp_assert(inv(q) && q->data == old.data && q->capacity == old.capacity && q->item_size == old.item_size, "data invariant");
	vp_assert(as_queue_size(q) == n - 1, "size drops by one");
	vp_assert(as_queue_empty(q) == (n == 1), "empty exactly when the last item left");
	vp_assert(it[b] == item(&old, old_data, 0, b), "first item returned");

	if (k < n - 1) {
		vp_assert(item(q, q->data, k, b) == item(&old, old_data, k + 1, b), "other items keep content and order");
	}
}

VP_HARNESS(pop_tail)
{
	setup(vp_bool("heap") ? ON_HEAP : 0);
	uint8_t* before = vp_snap(it, q->item_size);
	bool ok = as_queue_pop_tail(q, it);
	vp_assert(ok == (n > 0), "pop succeeds exactly when an item is held");

	if (! ok) {
		unchanged();
		vp_assert(it[b] == before[b], "nothing copied out");
		return;
	}
	vp_assert(inv(q) && q->data == old.data && q->capacity == old.capacity && q->item_size == old.item_size, "data invariant");
	vp_assert(as_queue_size(q) == n - 1, "size drops by one");
	vp_assert(it[b] == item(&old, old_data, n - 1, b), "last item returned");

	if (k < n - 1) {
		vp_assert(item(q, q->data, k, b) == item(&old, old_data, k, b), "other items keep content and order");
	}
}

VP_HARNESS(lifecycle)
{
	uint32_t cap = vp_range("capacity", 1, MAX_CAP);
	uint32_t isz = vp_range("item_size", 1, 1u << 16);
	vp_assume((size_t)cap * isz <= (1u << 30));
	vp_alloc_may_fail(true);
	uint64_t live = vp_live();
	as_queue s;
	as_queue* p = &s;
	bool ok;
	bool create = vp_bool("create");

	if (create) {
		p = as_queue_create(isz, cap);
		ok = p != NULL;
	}
	else {
		ok = as_queue_init(p, isz, cap);
	}
	vp_assert(ok == ! vp_alloc_failed(), "creation fails exactly when memory is exhausted");

	if (ok) {
		vp_assert(inv(p) && p->capacity == cap && p->item_size == isz && as_queue_size(p) == 0 && as_queue_empty(p), "created queue is empty");
		vp_assert(vp_live() == live + (create ? 2 : 1), "created storage");
		as_queue_destroy(p);
	}
	vp_assert(vp_live() == live, "all storage released");
}

VP_HARNESS(destroy_stack)
{
	setup(0);
	uint64_t live = vp_live();
	as_queue_destroy(q);
	vp_assert(vp_live() == live && ! vp_freed(old.data) && ! vp_freed(q), "storage on the stack is not released");
}
