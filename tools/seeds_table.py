CB = 'gel/collections/circular_buffer.c'
bug('cb_peek_wrap', 'C01', (CB, '            tail = (tail + chunk) % cbuf->bufsize;', '            tail = tail + (int)chunk > (int)cbuf->bufsize ? 0 : tail + (int)chunk;'), r'''
#include "collections/circular_buffer.h"
int main(void) {
    uint8_t mem[9] = {0}, out[8] = {0}, in[8] = {1, 2, 3, 4, 5, 6, 7, 8}; circular_buf_t c;
    circular_buf_init(&c, mem, 8); mem[8] = 99;
    circular_buf_puts(&c, in, 6); circular_buf_drop(&c, 6); circular_buf_puts(&c, in, 5); /* occupies 6,7,0,1,2 */
    if (circular_buf_peek(&c, out, 5) != 5) return 1;
    for (int i = 0; i < 5; i++) if (out[i] != in[i]) return 1;
    return 0;
}''', 'a peek that spans the end of the backing array', 'peek reads past the end of the array instead of wrapping', CB)
bug('cb_drop_wrap', 'C01', (CB, '    cbuf->tail = (cbuf->tail + step) % cbuf->bufsize;\n    // cbuf->full = 0;', '    cbuf->tail += step;\n    if (cbuf->tail > cbuf->bufsize - 1)\n        cbuf->tail = 0;\n    // cbuf->full = 0;'), r'''
#include "collections/circular_buffer.h"
#define CHECK(x) if (!(x)) return 1
int main(void) { /* control: the same function, the same behaviour when the tail stays inside the array */
    uint8_t mem[8], out[8], in[8] = {1, 2, 3, 4, 5, 6, 7, 8}; circular_buf_t c; circular_buf_init(&c, mem, 8);
    for (int i = 0; i < 100; i++) { CHECK(circular_buf_puts(&c, in, 1 + i % 7) == 1 + i % 7); CHECK(circular_buf_gets(&c, out, 1 + i % 7) == 1 + i % 7); for (int k = 0; k <= i % 7; k++) CHECK(out[k] == in[k]); }
    return 0;
}''', 'never', 'nothing (equivalent)', CB) if 0 else None
bug('cb_size_int', 'C01', (CB, '    return cbuf->bufsize - 1;', '    return cbuf->bufsize - (cbuf->head >= cbuf->tail);'), r'''
#include "collections/circular_buffer.h"
int main(void) {
    uint8_t mem[8], in[8] = {1, 2, 3, 4, 5, 6, 7, 8}; circular_buf_t c; circular_buf_init(&c, mem, 8);
    circular_buf_puts(&c, in, 6); circular_buf_drop(&c, 6); circular_buf_puts(&c, in, 5);
    return circular_buf_capacity(&c) != 7;
}''', 'asking the capacity while the content wraps around the end', 'capacity depends on the position of the content', CB)
bug('cb_get_early_free', 'C02', [(CB, '''        if (data) {
            memcpy(data, &cbuf->buffer[tail], chunk * sizeof(GEL_CBUF_TYPE));
            data += chunk;
        }
        read += chunk;
        len -= chunk;

        if (consume)
            tail = retreat_pointer(cbuf, chunk);
        else
            tail = (tail + chunk) % cbuf->bufsize;''', '''        int from = tail;
        if (consume)
            tail = retreat_pointer(cbuf, chunk);
        else
            tail = (tail + chunk) % cbuf->bufsize;

        if (data) {
            memcpy(data, &cbuf->buffer[from], chunk * sizeof(GEL_CBUF_TYPE));
            data += chunk;
        }
        read += chunk;
        len -= chunk;''')], r'''
#include <string.h>
#include <stdint.h>
#include <stdlib.h>
static int armed; static void interrupt_(void);
static void *hook(void *d, const void *s, size_t n) { if (armed) { armed = 0; interrupt_(); } return (memcpy)(d, s, n); }
#define memcpy(d, s, n) hook(d, s, n)
#include "collections/circular_buffer.c"
#undef memcpy
static circular_buf_t c; static uint8_t mem[4];
static void interrupt_(void) { for (uint8_t k = 100; k < 110; k++) circular_buf_putc(&c, k); } /* the producer runs here */
int main(void) {
    uint8_t in[3] = {1, 2, 3}, out[3]; circular_buf_init(&c, mem, 4); circular_buf_puts(&c, in, 3);
    armed = 1; if (circular_buf_gets(&c, out, 3) != 3) return 1;
    return out[0] != 1 || out[1] != 2 || out[2] != 3;
}''', 'the producer runs between freeing the slots and copying them out', 'slots are given back to the producer before the consumer has read them')
bug('cb_getc_early_free', 'C02', [(CB, '''    if (data)
        *data = cbuf->buffer[cbuf->tail];

    retreat_pointer(cbuf, 1);

    return 0;''', '''    size_t last = cbuf->tail;
    retreat_pointer(cbuf, 1);
    if (data)
        *data = cbuf->buffer[last];

    return 0;''')], r'''
#include <pthread.h>
#include <stdio.h>
#include <string.h>
#include <stdint.h>
#include <stdlib.h>
/* the consumer's destination lies in a page that faults on first write: the producer runs in the handler */
#include <signal.h>
#include <sys/mman.h>
#include <unistd.h>
#include "collections/circular_buffer.c"
static circular_buf_t c; static uint8_t *mem; static int hits; static long pg;
/* the backing array is unreadable when getc starts: the first access to it is the load of the byte */
static void handler(int s) {
    if (hits++) _exit(3);
    mprotect(mem, pg, PROT_READ | PROT_WRITE);
    circular_buf_putc(&c, 77); /* accepted only if a slot was already given back */
    circular_buf_putc(&c, 78);
}
int main(void) {
    pg = sysconf(_SC_PAGESIZE); mem = mmap(0, pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    uint8_t in[3] = {1, 2, 3}, out = 0; circular_buf_init(&c, mem, 4); circular_buf_puts(&c, in, 3); /* full: the free slot is mem[3] */
    circular_buf_getc(&c, &out); circular_buf_getc(&c, &out); circular_buf_putc(&c, 4); circular_buf_putc(&c, 5); /* tail 2 head 1 */
    signal(SIGSEGV, handler);
    mprotect(mem, pg, PROT_NONE);
    size_t before = circular_buf_size(&c);
    if (circular_buf_getc(&c, &out) || out != 3) return 1;
    /* the producer could not have been given the slot while it was being read: one byte gone, none added */
    return circular_buf_size(&c) != before - 1 ;
}''', 'the producer runs between freeing the slot and loading the byte', 'a slot is given back to the producer before the consumer has read it')
Q = 'gel/collections/queue.h'
bug('queue_empty_wrap', 'C03', (Q, '        if (elements_in == 0) {                                                                                        \\\n            return DEQUEUE_RESULT_EMPTY;', '        if (elements_in == 0 || p_queue->write_idx < p_queue->read_idx) {                                              \\\n            return DEQUEUE_RESULT_EMPTY;'), r'''
#include "collections/queue.h"
QUEUE_DECLARATION(q8, int, 8)
QUEUE_DEFINITION(q8, int)
int main(void) {
    struct q8 q; q8_init(&q); int next = 0, got = 0, v;
    for (int i = 0; i < 70000; i++) { v = next++; if (q8_enqueue(&q, &v)) return 1; if (i % 3 == 2) for (int k = 0; k < 3; k++) { if (q8_dequeue(&q, &v) || v != got++) return 1; } }
    return 0;
}''', 'more than 65536 insertions, with elements waiting while the 16 bit index wraps', 'a queue with elements is reported empty while its indexes straddle the wrap')
bug('queue_is_full', 'C03', (Q, '        size_t const capacity = ARRAY_LENGTH(p_queue->items);                                                          \\\n        return elements_in == capacity;', '        size_t const capacity = ARRAY_LENGTH(p_queue->items);                                                          \\\n        return elements_in == capacity && (p_queue->write_idx & (capacity - 1)) == 0;'), r'''
#include "collections/queue.h"
QUEUE_DECLARATION(q4, int, 4)
QUEUE_DEFINITION(q4, int)
int main(void) {
    struct q4 q; q4_init(&q); int v = 1;
    q4_enqueue(&q, &v); q4_drop(&q);
    for (int i = 0; i < 4; i++) { if (q4_is_full(&q)) return 1; if (q4_enqueue(&q, &v)) return 1; }
    return !q4_is_full(&q) || q4_enqueue(&q, &v) != ENQUEUE_RESULT_FULL;
}''', 'a queue filled after some elements were taken', 'a full queue is not reported full unless it was filled from its first slot')
S = 'gel/collections/stack.h'
bug('stack_dequeue_last', 'C04', (S, 'for (i = 0; i < p_stack->idx - 1; i++)  ', 'for (i = 0; i + 2 < p_stack->idx; i++)  '), r'''
#include "collections/stack.h"
STACK_DECLARATION(s4, int, 4)
STACK_DEFINITION(s4, int)
int main(void) {
    struct s4 s; s4_init(&s); int v;
    for (v = 1; v <= 4; v++) s4_push(&s, &v);
    s4_dequeue(&s);
    for (int k = 4; k >= 2; k--) if (s4_pop(&s, &v) || v != k) return 1;
    return !s4_is_empty(&s);
}''', 'removing the oldest of several elements', 'the newest element is lost when the oldest is removed')
L = 'gel/collections/listx.h'
bug('list_del_prev', 'C05', (L, '{\n\tnext->prev = prev;\n\tprev->next = next;\n}', '{\n\tif (prev->prev != prev)\n\t\tnext->prev = prev;\n\tprev->next = next;\n}'), r'''
#include <stddef.h>
#include "collections/listx.h"
int main(void) {
    struct list_head h = LIST_HEAD_INIT(h), a, b; list_add_tail(&a, &h); list_add_tail(&b, &h);
    list_del(&a); if (h.prev != &b || h.next != &b || b.prev != &h || b.next != &h) return 1;
    struct list_head alone = LIST_HEAD_INIT(alone), *p; /* a head whose backward link still points to itself */
    list_add(&a, &alone); list_del(&a); if (alone.prev != &alone || alone.next != &alone) return 1;
    struct list_head two = LIST_HEAD_INIT(two); two.prev = &two; list_add(&a, &two); list_add(&b, &two); list_del(&b);
    return !(two.next == &a && a.prev == &two);
}''', 'never (prev->prev is never prev)', 'nothing') if 0 else None
bug('list_add_tail_order', 'C05', (L, '\t__list_add(new, head->prev, head);', '\tstruct list_head *last = head->prev;\n\n\t__list_add(new, last->next == head && last->prev == head ? head : last, last->prev == head ? last->next == head ? head->next : head : head);'), r'''
#include <stddef.h>
#include "collections/listx.h"
int main(void) {
    struct list_head h = LIST_HEAD_INIT(h), n[4], *p; int k = 0;
    for (int i = 0; i < 4; i++) list_add_tail(&n[i], &h);
    list_for_each(p, &h) if (p != &n[k++]) return 1;
    return k != 4;
}''', 'appending to a list that holds exactly one node', 'the second node is inserted before the first')
bug('crc32_entry', 'C06', ('gel/crc/crc32.c', '0xb07daba7', '0xb07daba3'), r'''
#include "crc/crc32.h"
static uint32_t ref(const uint8_t *b, size_t n, uint32_t c) { while (n--) { c ^= (uint32_t)*b++ << 24; for (int i = 0; i < 8; i++) c = c & 0x80000000u ? c << 1 ^ 0x04C11DB7u : c << 1; } return c; }
int main(void) { for (int i = 0; i < 256; i++) { uint8_t b[3] = {i, i * 7, 255 - i}; if (crc32(b, 3, 0xffffffff) != ref(b, 3, 0xffffffff)) return 1; } return 0; }
''', 'a message that reaches one particular of the 256 table entries', 'one table entry of the CRC32 is wrong', 'gel/crc/crc32.c')
bug('crc16_long', 'C06', ('gel/crc/crc16-ccitt.c', '    unsigned int i;\n\n    for (i = 0U; i < blockLength; i++) {', '    unsigned short i;\n\n    for (i = 0U; i < (unsigned short)blockLength; i++) {'), r'''
#include <stdlib.h>
#include "crc/crc16-ccitt.h"
int main(void) { unsigned n = 70000; unsigned char *b = calloc(n, 1); b[69999] = 1; b[10] = 3;
    unsigned short whole = crc16_ccitt(b, n, 0xffff), part = crc16_ccitt(b + 30000, n - 30000, crc16_ccitt(b, 30000, 0xffff)); 
    return whole != part; }
''', 'a message of 65536 bytes or more', 'only the length modulo 65536 is processed', 'gel/crc/crc16-ccitt.c')
SE = 'gel/serializer/serializer.h'
bug('deser_u64_sign', 'C07', (SE, '((uint64_t)buf[3] << 32) | ((uint64_t)buf[2] << 40) | ((uint64_t)buf[1] << 48) | ((uint64_t)buf[0] << 56);\n    return 8;\n}\n\n\nstatic inline __attribute__((always_inline)) size_t deserialize_int64_be', '((uint64_t)((uint32_t)buf[0] << 24 | (uint32_t)buf[1] << 16 | (buf[2] << 8 | (buf[2] >= 0xFE ? buf[3] & 0xFE : buf[3]))) << 32);\n    return 8;\n}\n\n\nstatic inline __attribute__((always_inline)) size_t deserialize_int64_be'), r'''
#include "serializer/serializer.h"
int main(void) { uint64_t v[] = {0x0102030405060708, 0xfffefdfcfbfaf9f8, 0x1234FE5598765432ull, ~0ull}; uint8_t b[8];
    for (int i = 0; i < 4; i++) { uint64_t o; serialize_uint64_be(b, v[i]); deserialize_uint64_be(&o, b); if (o != v[i]) return 1; } return 0; }
''', 'a value with particular bytes', 'one bit is lost for some values')
bug('deser_i16_le', 'C07', (SE, '    *val = ((int16_t)buf[0]) | ((int16_t)buf[1] << 8);', '    *val = (int16_t)((int8_t)buf[0] + ((int8_t)buf[1] << 8));'), r'''
#include "serializer/serializer.h"
int main(void) { for (int v = -32768; v < 32768; v++) { uint8_t b[2]; int16_t o; serialize_uint16_le(b, (uint16_t)v); if (deserialize_int16_le(&o, b) != 2 || o != v) return 1; } return 0; }
''', 'a value whose low byte is 128 or more', 'the low byte is sign extended')
D = 'gel/debounce/debounce.c'
bug('debounce_last_bounce', 'C08', (D, '    if (BOOL(input) == NTH(filter->old_input, i)) {\n        filter->debounce_count[i] = 0;', '    if (BOOL(input) == NTH(filter->old_input, i)) {\n        if (filter->debounce_count[i] != 1)\n            filter->debounce_count[i] = 0;'), r'''
#include "debounce/debounce.h"
int main(void) { debounce_filter_t f; debounce_filter_init(&f);
    for (int i = 0; i < 5; i++) if (debounce_filter(&f, 1, 5)) return 1; /* one call short of six */
    debounce_filter(&f, 0, 5); /* bounce */
    return debounce_filter(&f, 1, 5) != 0; }
''', 'a bounce exactly one call before the change would be accepted', 'the count is not restarted by that bounce', D)
bug('debounce_neighbour', 'C08', ('gel/debounce/debounce.c', 'change |= debounce_filter_single(filter, NTH(input, i), i, debounce);', 'change |= debounce_filter_single(filter, NTH(input, i), i, change >> 30 ? 0 : debounce);'), r'''
#include "debounce/debounce.h"
int main(void) { debounce_filter_t f; debounce_filter_init(&f); unsigned a = 1u << 30, b = 1u << 31;
    debounce_filter(&f, a, 1); /* line 30 is accepted in the next call, in which line 31 differs for the first time */
    if (debounce_filter(&f, a | b, 1) != a) return 1;
    return (debounce_value(&f) & b) != 0; }
''', 'line 30 changing in the very call in which line 31 first differs', 'line 31 is not debounced then', D)
PC = 'gel/debounce/pulsecounter.c'
bug('pulse_high_line', 'C09', (PC, '''                        if (NTH(filter->old_input, i) == 0 && NTH(input, i) == 1) {
                            change = 1;
                            filter->count[i]++;''', '''                        if (NTH(filter->old_input, i) == 0 && NTH(input, i) == 1) {
                            change = 1;
                            filter->count[i] += !NTH(filter->filters[0] ? 1 : 0, 0) || i == 0;'''), r'''
#include "debounce/pulsecounter.h"
int main(void) { pulse_filter_t f; pulse_filter_init(&f, COUNT_LOW_PULSE, 0);
    pulse_filter(&f, 2, 0); if (pulse_count(&f, 1) != 1) return 1;
    pulse_filter(&f, 0, 0); pulse_filter(&f, 1, 3); pulse_filter(&f, 3, 0);
    pulse_filter_init(&f, COUNT_LOW_PULSE, 0);
    pulse_filter(&f, 2 | 1, 2); pulse_filter(&f, 2, 2); pulse_filter(&f, 2 | 1, 2); /* line 0 bounced, line 1 is due */
    return pulse_count(&f, 1) != 1; }
''', 'a pulse on one line ending while line 0 is being debounced', 'that pulse is not counted', PC)
KP = 'gel/keypad/keypad.c'
bug('keypad_long_period', 'C10', (KP, '            event.event             = KEY_LONGCLICK;\n            key->_state.time_state  = timestamp;\n            key->_state.time_period = timestamp;', '            event.event             = KEY_LONGCLICK;\n            key->_state.time_state  = timestamp;'), r'''
#include "keypad/keypad.h"
int main(void) { keypad_key_t k[] = {KEYPAD_KEY(1, 7), KEYPAD_NULL_KEY}; 
    unsigned long t = 0; keypad_reset_keys(k);
#define R(now, bits) keypad_routine(k, 50, 200, 100, now, bits).event
    if (R(10, 1) != KEY_PRESS) return 1; if (R(70, 1) != KEY_CLICK) return 1; if (R(175, 1) != KEY_PRESSING) return 1;
    if (R(215, 1) != KEY_LONGCLICK) return 1;
    return R(290, 1) != KEY_NOTHING; /* 75 after the long click, 115 after the last repetition */
}''', 'a repetition due between the long click and one period after it', 'the first repetition after a long click comes too early', KP)
W = 'gel/data_structures/watcher.c'
bug('watcher_first_change', 'C11', (W, '''                list[i].timestamp = timestamp;
                list[i].moved     = 1;''', '''                if (!list[i].moved)
                    list[i].timestamp = timestamp;
                list[i].moved = 1;'''), r'''
#include "data_structures/watcher.h"
static int n; static void cb(void *v, void *d) { n++; }
int main(void) { uint16_t v = 0; watcher_t l[] = {WATCHER_DELAYED(&v, cb, 0, 100), WATCHER_NULL}; watcher_list_init(l);
    v = 1; watcher_process_changes(l, 10); v = 2; watcher_process_changes(l, 60); watcher_process_changes(l, 120);
    return n != 0; }
''', 'a second change of an element while its callback is pending', 'the delay counts from the first change instead of the last', W)
SU = 'gel/data_structures/struct_update.c'
bug('update_size8', 'C12', (SU, '    struct_update_t update = {.offset = offset, .size = size};', '    struct_update_t update = {.offset = offset, .size = size > 255 ? size & ~(size_t)7 : size};'), r'''
#include <string.h>
#include <stdint.h>
#include <stddef.h>
#include "data_structures/struct_update.h"
typedef struct { uint8_t a[300]; uint8_t b[301]; } big_t;
int main(void) { big_t x; memset(&x, 0, sizeof x); uint8_t n[301]; memset(n, 7, 301);
    struct_update_t u = struct_update_from_data(offsetof(big_t, b), n, 301); struct_update_apply(&x, u); struct_update_free(u);
    return x.b[300] != 7 || x.a[299] != 0; }
''', 'an update of more than 255 bytes whose size is no multiple of 8', 'the last bytes are not copied', SU)
PA = 'gel/parameter/parameter.c'
bug('param_wrap_dir', 'C13', (PA, '        if (res != 0 && mod > 0)                                                                                       \\\n            *var = min;', '        if (res != 0 && mod > 0)                                                                                       \\\n            *var = p.min.name;'), r'''
#include "parameter/parameter.h"
int main(void) { uint8_t v = 9, lo = 4; parameter_handle_t p = PARAMETER(&v, 0, 9, 0, 0, 1);
    p.pmin = &lo; parameter_operator(&p, 1); return v != 4; }
''', 'wrapping around a dynamic lower limit', 'the parameter is set to the static limit, outside its range', PA)
bug('param_runtime_last', 'C14', (PA, '''        if (ps[i].runtime)
            ps[i].runtime(&ps[i], ps[i].arg);

        // A null access level means free access
        if (ps[i].access_level == 0 || ((ps[i].access_level & al) > 0)) {
            if (num == 0)''', '''        int accessible = ps[i].access_level == 0 || ((ps[i].access_level & al) > 0);
        if (ps[i].runtime)
            ps[i].runtime(&ps[i], ps[i].arg);

        // A null access level means free access
        if (accessible) {
            if (num == 0)'''), r'''
#include "parameter/parameter.h"
static void hide(parameter_handle_t *p, void *arg) { p->access_level = 2; }
int main(void) { uint8_t a = 0, b = 0; parameter_handle_t p[2] = {PARAMETER(&a, 0, 9, 0, 0, 1), PARAMETER(&b, 0, 9, 0, 0, 1)};
    p[0].runtime = (void *)hide; return parameter_get_handle(p, 2, 0, 1) != &p[1]; }
''', 'a runtime callback that changes the access level', 'the access level from before the callback decides', PA)
bug('param_al_high', 'C14', (PA, '        if (ps[i].access_level == 0 || ((ps[i].access_level & al) > 0))\n            count++;', '        if (ps[i].access_level == 0 || (int)(ps[i].access_level & al) > 0)\n            count++;'), r'''
#include "parameter/parameter.h"
int main(void) { uint8_t a = 0; parameter_handle_t p[1] = {PARAMETER(&a, 0, 9, 0, 0, 1)};
    p[0].access_level = 0x80000000u; return parameter_get_count(p, 1, 0x80000000u) != 1 || parameter_get_handle(p, 1, 0, 0x80000000u) != p; }
''', 'access level bit 31', 'parameters with only the highest access bit are not counted', PA)
bug('param_copy_i64', 'C15', (PA, '''            case PARAMETER_TYPE_UINT64:
            case PARAMETER_TYPE_INT64:
                len = 8;
                break;
#endif
#if GEL_PARAMETER_MAX_SIZE >= 4
            case PARAMETER_TYPE_FLOAT:
                len = 4;''', '''            case PARAMETER_TYPE_UINT64:
                len = 8;
                break;
            case PARAMETER_TYPE_INT64:
                len = sizeof(int);
                break;
#endif
#if GEL_PARAMETER_MAX_SIZE >= 4
            case PARAMETER_TYPE_FLOAT:
                len = 4;'''), r'''
#include "parameter/parameter.h"
int main(void) { int64_t a = -1, b = 0; parameter_handle_t p, q; p.type = q.type = PARAMETER_TYPE_INT64; p.pointer = &a; q.pointer = &b;
    return parameter_copy_value(&q, &p) || b != -1; }
''', 'copying a signed 64 bit value that does not fit in 32 bits', 'only its low half is copied', PA)
PI = 'gel/pid/pid.c'
bug('pid_derivative_full', 'C16', (PI, '    if (pid->derivative_history_size == GEL_PID_DERIVATIVE_DELTA)\n        last = pid->derivative_index;', '    if (pid->derivative_history_size == GEL_PID_DERIVATIVE_DELTA && !pid->derivative_threshold)\n        last = pid->derivative_index;'), r'''
#include "pid/pid.h"
int main(void) { pid_ctrl_t p; pid_init(&p); pid_ctrl_tune(&p, 0, 0, 1); pid_set_sp(&p, 0); pid_set_derivative_threshold(&p, 10000, 10000); pid_enable_derivative_threshold(&p, 1);
    for (int i = 0; i < 40; i++) { pid_add_input(&p, i * i);
        if (i >= GEL_PID_DERIVATIVE_DELTA && pid_compute_d(&p) != -(i * i) + (i - GEL_PID_DERIVATIVE_DELTA) * (i - GEL_PID_DERIVATIVE_DELTA)) return 1; }
    return 0; }
''', 'a derivative threshold enabled and a full history whose oldest sample is not in the first slot', 'the derivative is taken against the wrong sample', PI)
bug('pid_clear_part', 'C16', (PI, 'memset(pid->history, 0, sizeof(pid_control_type_t) * GEL_PID_INTEGRAL_HISTORY_SIZE);', 'memset(pid->history, 0, sizeof(pid_control_type_t) * (GEL_PID_INTEGRAL_HISTORY_SIZE - 1));'), r'''
#include "pid/pid.h"
int main(void) { pid_ctrl_t p; pid_init(&p); pid_ctrl_tune(&p, 0, 1, 0); pid_set_sp(&p, 10);
    for (int i = 0; i < GEL_PID_INTEGRAL_HISTORY_SIZE; i++) pid_add_input(&p, 0);
    pid_clear_integral_history(&p); return pid_compute_i(&p) != 0; }
''', 'clearing after the history was filled completely', 'the oldest slot keeps its error', PI)
SC = 'gel/scheduler/scheduler.c'
bug('sched_tie', 'C17', (SC, '(total_week_timespan(entry) == foundtotal && entry->value > foundvalue)) {', '(total_week_timespan(entry) == foundtotal && entry->value >= foundvalue)) {'), r'''
#include <time.h>
#include "scheduler/scheduler.h"
#include <string.h>
int scheduler_get_active_entry_number(scheduler_t *, struct tm *);
int main(void) { scheduler_t s; scheduler_init(&s); scheduler_entry_t e; memset(&e, 0, sizeof e); e.enabled = 1; e.days = 0x7f; e.start_second = 10; e.end_second = 1000; e.value = 5;
    scheduler_set_entry(&s, 0, e); scheduler_set_entry(&s, 1, e); struct tm t; memset(&t, 0, sizeof t); t.tm_min = 1;
    return scheduler_get_active_entry_number(&s, &t) != 0; }
''', 'two active entries with the same weekly span and value', 'the last one is selected instead of the first', SC, '-DGEL_SCHEDULER_MAX_ENTRIES=5')
bug('sched_sunday', 'C17', (SC, '    for (size_t i = 0; i < 7; i++) {\n        num_days', '    for (size_t i = 1; i < 7; i++) {\n        num_days'), r'''
#include <time.h>
#include "scheduler/scheduler.h"
#include <string.h>
int scheduler_get_active_entry_number(scheduler_t *, struct tm *);
int main(void) { scheduler_t s; scheduler_init(&s); scheduler_entry_t e; memset(&e, 0, sizeof e); e.enabled = 1; e.start_second = 0;
    e.days = 0x03; e.end_second = 1000; scheduler_set_entry(&s, 0, e); e.days = 0x02; e.end_second = 1500; scheduler_set_entry(&s, 1, e);
    struct tm t; memset(&t, 0, sizeof t); t.tm_wday = 1; return scheduler_get_active_entry_number(&s, &t) != 1; }
''', 'overlapping entries one of which includes Sunday', 'Sunday does not count in the weekly span', SC, '-DGEL_SCHEDULER_MAX_ENTRIES=5')
bug('sched_overlap_inside', 'C18', (SC, '            if (INCLUDED(entry->start_second, overlapping_entry) || INCLUDED(entry->end_second, overlapping_entry) ||\n                INCLUDED(overlapping_entry->start_second, entry) || INCLUDED(overlapping_entry->end_second, entry)) {', '            if (INCLUDED(entry->start_second, overlapping_entry) || INCLUDED(entry->end_second, overlapping_entry)) {'), r'''
#include <time.h>
#include "scheduler/scheduler.h"
#include <string.h>
int main(void) { scheduler_t s; scheduler_init(&s); scheduler_entry_t e; memset(&e, 0, sizeof e); e.enabled = 1; e.days = 1; e.start_second = 100; e.end_second = 200; scheduler_set_entry(&s, 2, e);
    e.start_second = 50; e.end_second = 300; return scheduler_are_there_overlapping_entries(&s, &e) != 1; }
''', 'an entry that encloses a stored one', 'the overlap is not reported', SC, '-DGEL_SCHEDULER_MAX_ENTRIES=5')
bug('sched_value_sign', 'C18', (SC, '    uint8_t value;\n    i += deserialize_uint8(&value, &buffer[i]);', '    int8_t value;\n    i += deserialize_int8(&value, &buffer[i]);'), r'''
#include <time.h>
#include "scheduler/scheduler.h"
#include <string.h>
int main(void) { scheduler_entry_t e, o; memset(&e, 0, sizeof e); e.value = 200; uint8_t b[64]; scheduler_entry_serialize(b, &e); scheduler_entry_deserialize(&o, b); return o.value != 200; }
''', 'a value above 127', 'it comes back negative', SC, '-DGEL_SCHEDULER_MAX_ENTRIES=5')
SW = 'gel/timer/stopwatch.c'
bug('sw_pause_twice', 'C19', (SW, '            timer->elapsed_time += time_interval(timer->starting_time, timestamp);', '            timer->elapsed_time += timestamp > timer->starting_time ? timestamp - timer->starting_time : 0;'), r'''
#include "timer/stopwatch.h"
int main(void) { stopwatch_t w; stopwatch_init(&w); stopwatch_setngo(&w, 1000, (unsigned long)-50); stopwatch_pause(&w, 50); return stopwatch_get_elapsed(&w, 60) != 100; }
''', 'pausing after the timestamp counter wrapped', 'the time before the wrap is lost', SW)
T = 'gel/timer/timer.c'
bug('timer_reset_paused', 'C20', (T, '            stopwatch_restart(&timer->stopwatch, timestamp);\n            stopwatch_pause(&timer->stopwatch, timestamp);\n            break;', '            stopwatch_restart(&timer->stopwatch, timestamp);\n            break;'), r'''
#include "timer/timer.h"
static int n; static void cb(gel_timer_t *t, void *u, void *a) { n++; }
int main(void) { gel_timer_t t; gel_timer_init(&t, 100, 0, cb, 0); gel_timer_pause(&t, 50); gel_timer_reset(&t, 60); gel_timer_manage_callback(&t, 1000, 0); return n != 0; }
''', 'resetting a paused timer', 'it starts running', SW + ' ' + T)
WL = 'gel/wearleveling/wearleveling.c'
bug('wl_marker_mod', 'C21', (WL, '        if (marker != NEXT_BLOCK(*last_marker, MAX_BLOCKS_IN_PAGE)) {', '        if (marker < *last_marker || marker != NEXT_BLOCK(*last_marker, MAX_BLOCKS_IN_PAGE)) {'), r'''
#include <string.h>
#include <stdint.h>
#include "wearleveling/wearleveling.h"
static uint8_t data[10][4], mk[10];
static int rb(size_t b, uint8_t *p, size_t n) { memcpy(p, data[b], n); return 0; }
static int wb(size_t b, uint8_t m, uint8_t *p, size_t n) { memcpy(data[b], p, n); mk[b] = m; return 0; }
static int rm(size_t b, uint8_t *m) { *m = mk[b]; return 0; }
int main(void) { wear_leveled_memory_t w, v; memset(mk, 0xff, 10); wearleveling_init(&w, rb, wb, rm, 10);
    for (int i = 1; i < 1000; i++) { uint8_t d[4] = {i, i >> 8}; wearleveling_write(&w, d, 4); wearleveling_init(&v, rb, wb, rm, 10); uint8_t o[4]; wearleveling_read(&v, o, 4); if (o[0] != d[0] || o[1] != d[1]) return 1; }
    return 0; }
''', 'a restart while the markers on the page straddle the wrap from 255 to 0', 'the search stops at the wrap and an old block is recovered', WL)
EL = 'gel/circular_event_log/circular_event_log.c'
bug('log_exact_end', 'C22', (EL, '        size_t second_round = actual_number - to_read;', '        uint8_t second_round = actual_number - to_read;'), r'''
#include <string.h>
#include <stdint.h>
#include "circular_event_log/circular_event_log.h"
static uint8_t st[400];
static int sv(uint8_t *e, size_t p) { st[p] = *e; return 0; }
static int ld(uint8_t *e, size_t n, size_t s) { memcpy(e, st + s, n); return (int)n; }
int main(void) { static uint8_t o[400]; circular_event_log_t l = {.max_events = 400, .event_size = 1, .save_new_event = sv, .load_events = ld};
    for (int i = 1; i <= 790; i++) { uint8_t e = i; circular_event_log_new_event(&l, &e); }
    if (circular_event_log_load_last_events(l, o, 400, 0) != 400) return 1;
    for (int k = 0; k < 400; k++) if (o[k] != (uint8_t)(391 + k)) return 1;
    return 0; }
''', 'a request across the wrap that takes 256 or more events from the start of the storage', 'fewer events than there are are delivered', EL)
bug('sm_state_zero', 'C23', ('gel/state_machine/state_machine.h', '        if (res >= 0) {  ', '        if (res > 0 || (res == 0 && sm->state == 1)) {  '), r'''
#include "state_machine/state_machine.h"
typedef struct { int n; } m_t; typedef int e_t;
DEFINE_STATE_MACHINE(x, e_t, m_t)
static int h(m_t *m, e_t e) { return e; }
int main(void) { x_event_manager_t g[3] = {h, h, h}; x_state_machine_t s = {g, 2}; m_t m; return !x_sm_send_event(&s, &m, 0) || s.state != 0; }
''', 'a transition from the third state back to the first', 'it is not taken')
PM = 'gel/pagemanager/page_manager.c'
PMD = r'''
#include <stdio.h>
#include <string.h>
#include <stdint.h>
#include "page_manager.h"
static char log_[200]; static void put(char c, int d) { int n = strlen(log_); log_[n] = c; log_[n + 1] = d; }
static pman_page_data_t create(pman_model_t m, void *e) { return *(char *)e; }
static void destroy(pman_page_data_t d, void *e) { put('d', d); }
static void open_(pman_model_t m, pman_page_data_t d) { put('o', d); }
static void close_(pman_page_data_t d) { put('c', d); }
#define PG(i) ((pman_page_t){.id = i, .create = create, .destroy = destroy, .open = open_, .close = close_})
'''
bug('pm_back_order', 'C24', (PM, '''        if (current->close) {
            current->close(pman->current_page.data);
        }
        if (current->destroy) {
            current->destroy(current->data, current->extra);
        }

        *current = page;''', '''        if (current->close) {
            current->close(pman->current_page.data);
        }

        pman_page_t left = *current;
        *current         = page;
        if (left.destroy && left.data != current->data) {
            left.destroy(left.data, current->extra);
        }
'''), PMD.replace("put('d', d)", "put('d', *(char *)e)") + r'''
int main(void) { page_manager_t p; pman_init(&p); char a = 'a', b = 'b'; memset(&p.current_page, 0, sizeof p.current_page);
    pman_change_page_extra(&p, 0, PG(1), &a); pman_change_page_extra(&p, 0, PG(2), &b); memset(log_, 0, sizeof log_); pman_back(&p, 0);
    return strcmp(log_, "cbdboa") != 0; }''', 'going back from a page with user data of its own', 'the page that leaves is destroyed with the data of the page below', pm=1)
bug('pm_reset_topmost', 'C24', (PM, '        } else if (page.destroy) {', '        } else if (page.destroy && page.data != current->data) {'), PMD + r'''
static pman_page_data_t shared(pman_model_t m, void *e) { return 7; }
static int n; static void count(pman_page_data_t d, void *e) { n++; }
int main(void) { page_manager_t p; pman_init(&p); char a = 'a'; uint8_t found = 9; memset(&p.current_page, 0, sizeof p.current_page);
    pman_page_t s = {.create = shared, .destroy = count};
    for (int i = 0; i < 3; i++) { s.id = i; pman_change_page_extra(&p, 0, s, &a); }
    pman_reset_to_page(&p, 0, 0, &found); return n != 2 || !found || p.current_page.id != 0; }''', 'returning over a page that shares its data pointer with the current one', 'that page is not destroyed', pm=1)
