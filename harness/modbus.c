/* Modbus TCP client: requests are encoded as the standard states, and any bytes received are refused or answer exactly one request */
#include "vp.h"
#include "lib/modbus/rrr_modbus.c"
static uint64_t now = 5000000;
uint64_t rrr_time_get_64 (void) { return now; }
#define MAXREQ 40
static int created, destroyed[MAXREQ], ids[MAXREQ];
static int create(void **result, void *pd, void *arg) { (void) arg; VP_ASSERT(created < MAXREQ, "requests"); VP_ASSERT(pd == &ids[0], "private data argument"); *result = &ids[created++]; return 0; }
static void destroy(void *d) { destroyed[(int *) d - ids]++; }
/* what is expected from the next callback */
static int called, cb_result, cb_fn, cb_index, cb_err;
static uint16_t cb_id;
static const uint8_t *res; /* PDU */
static int rsize;
static int common(uint8_t fn, uint16_t id, void *pd, int index_ok) {
	called++;
	VP_ASSERT(index_ok && pd == &ids[cb_index] && destroyed[cb_index] == 0, "private data of the request");
	VP_ASSERT(id == cb_id, "transaction id");
	VP_ASSERT(fn == cb_fn, "function code");
	return cb_result;
}
static int cb_error(RRR_MODBUS_ERROR_CALLBACK_ARGS) { (void) arg; VP_ASSERT(cb_err, "error"); VP_ASSERT(error_code == res[1], "error code"); return common(function_code, transaction_id, transaction_private_data, 1); }
#define VALUES(code, name) static int name(RRR_MODBUS_BYTE_COUNT_AND_COILS_CALLBACK_ARGS) { (void) arg; \
	VP_ASSERT(!cb_err && code == cb_fn, "callback of the function"); VP_ASSERT(byte_count == rsize - 2 && byte_count == res[1], "byte count"); \
	if (byte_count > 0) { int i = vp_range(0, 255); VP_ASSUME(i < byte_count); VP_ASSERT(coil_status[i] == res[2 + i], "values"); } \
	return common(function_code, transaction_id, transaction_private_data, 1); }
VALUES(1, cb01)
VALUES(2, cb02)
VALUES(3, cb03)
VALUES(4, cb04)
static int cb06(RRR_MODBUS_STARTING_ADDRESS_AND_REGISTER_VALUE_CALLBACK_ARGS) { (void) arg;
	VP_ASSERT(!cb_err && cb_fn == 6, "callback of the function");
	VP_ASSERT(starting_address == (res[1] << 8 | res[2]) && register_value[0] == res[3] && register_value[1] == res[4], "address and value");
	return common(function_code, transaction_id, transaction_private_data, 1); }
static int cb16(RRR_MODBUS_STARTING_ADDRESS_AND_QUANTITY_CALLBACK_ARGS) { (void) arg;
	VP_ASSERT(!cb_err && cb_fn == 16, "callback of the function");
	VP_ASSERT(starting_address == (res[1] << 8 | res[2]) && quantity == (res[3] << 8 | res[4]), "address and quantity");
	return common(function_code, transaction_id, transaction_private_data, 1); }
static uint16_t address[3], amount[3];
static uint8_t contents[250];
static const int fns[2] = { F1, F2 };
static int push(struct rrr_modbus_client *c, int fn, int i) {
#ifdef FULL
	address[i] = 0x1234; amount[i] = 1;
#else
	address[i] = vp_u16(); amount[i] = vp_u16();
#endif
	switch (fn) {
		case 1: VP_ASSUME(amount[i] >= 1 && amount[i] <= 2000); return rrr_modbus_client_req_01_read_coils(c, address[i], amount[i], &ids[0]);
		case 2: VP_ASSUME(amount[i] >= 1 && amount[i] <= 2000); return rrr_modbus_client_req_02_read_discrete_inputs(c, address[i], amount[i], &ids[0]);
		case 3: VP_ASSUME(amount[i] >= 1 && amount[i] <= 125); return rrr_modbus_client_req_03_read_holding_registers(c, address[i], amount[i], &ids[0]);
		case 4: VP_ASSUME(amount[i] >= 1 && amount[i] <= 125); return rrr_modbus_client_req_04_read_input_registers(c, address[i], amount[i], &ids[0]);
		case 6: return rrr_modbus_client_req_06_write_single_register(c, address[i], contents, &ids[0]);
		default: amount[i] = W16; return rrr_modbus_client_req_16_write_multiple_registers(c, address[i], amount[i], contents, &ids[0]);
	}
}
static void written(struct rrr_modbus_client *c, int fn, int i, uint16_t id) {
	uint8_t out[260];
	rrr_length size = sizeof(out);
	VP_ASSERT(rrr_modbus_client_write(c, out, &size) == 0, "write");
	int pdu = fn <= 6 ? 5 : 6 + 2 * W16;
	VP_ASSERT(size == (rrr_length) (7 + pdu), "size");
	VP_ASSERT(out[0] == id >> 8 && out[1] == (id & 255) && out[2] == 0 && out[3] == 0 && out[4] == (pdu + 1) >> 8 && out[5] == ((pdu + 1) & 255), "header");
	VP_ASSERT(out[7] == fn && out[8] == address[i] >> 8 && out[9] == (address[i] & 255), "function and address");
	if (fn == 6) VP_ASSERT(out[10] == contents[0] && out[11] == contents[1], "value");
	else VP_ASSERT(out[10] == amount[i] >> 8 && out[11] == (amount[i] & 255), "quantity");
	if (fn == 16) {
		VP_ASSERT(out[12] == 2 * W16, "byte count");
		int k = vp_range(0, 2 * W16 - 1);
		VP_ASSERT(out[13 + k] == contents[k], "values");
	}
}
void vp_harness(void) {
	struct rrr_modbus_client *c;
	VP_ASSERT(rrr_modbus_client_new(&c) == 0, "new");
	struct rrr_modbus_client_callbacks cb = { create, destroy, cb_error, cb01, cb02, cb03, cb04, cb06, cb16, NULL };
	rrr_modbus_client_callbacks_set(c, &cb);
	/* any history of completed requests */
#ifdef FULL
	uint16_t id = 0xfffe;
#else
	uint16_t id = vp_u16();
#endif
	c->transaction_id_pos = id;
	c->transaction_write_pos = c->transaction_transmit_pos = POS;
	rrr_length zero = 260;
	uint8_t none[260];
	VP_ASSERT(rrr_modbus_client_write(c, none, &zero) == RRR_MODBUS_DONE, "nothing to send");
#ifdef FULL
	int first = 0;
	for (int i = 0; i < 3; i++) {
		VP_ASSERT(push(c, 3, 0) == 0, "request");
		if (i == 0) first = amount[0];
		written(c, 3, 0, (uint16_t) (id + i));
	}
	uint64_t wait = vp_u32();
	now += wait;
	VP_ASSERT(push(c, 3, 0) == (wait > 1000000 ? RRR_MODBUS_SOFT_ERROR : RRR_MODBUS_BUSY), "all requests are in use");
	VP_ASSERT(created == 4 && destroyed[3] == 1, "private data");
	/* answers in any order: the oldest makes place for one more */
	uint8_t r[11] = { (uint8_t) (id >> 8), (uint8_t) id, 0, 0, 0, 5, 255, 3, 2, vp_u8(), vp_u8() };
	VP_ASSUME(first == 1);
	cb_fn = 3; cb_id = id; cb_index = 0; res = r + 7; rsize = 4;
	rrr_length rl = 11;
	VP_ASSERT(rrr_modbus_client_read(c, r, &rl) == 0 && called == 1 && rl == 11, "answer");
	VP_ASSERT(push(c, 3, 0) == 0, "request");
	written(c, 3, 0, (uint16_t) (id + 3));
	rrr_modbus_client_destroy(c);
	for (int i = 0; i < created; i++) VP_ASSERT(destroyed[i] == 1, "private data is destroyed once");
#else
	if (F1 >= 6 || F2 >= 6) vp_bytes(contents, 2 * W16);
	VP_ASSERT(push(c, F1, 0) == 0, "request");
	VP_ASSERT(push(c, F2, 1) == 0, "request");
	written(c, F1, 0, id);
	written(c, F2, 1, (uint16_t) (id + 1));
	VP_ASSERT(rrr_modbus_client_write(c, none, &zero) == RRR_MODBUS_DONE, "nothing to send");
	VP_ASSERT(push(c, F1, 2) == 0, "request");
	/* third one has not been sent */
	uint8_t *d = malloc(N);
	vp_bytes(d, N);
#ifdef BIG
	d[4] = (N - 6) >> 8; d[5] = (N - 6) & 255;
#endif
	int len = N >= 7 ? d[4] << 8 | d[5] : 0;
	cb_result = vp_range(0, 2);
	int expect;
	res = d + 7;
	rsize = len - 1;
	if (N < 7) expect = RRR_MODBUS_INCOMPLETE;
	else if (len == 0) expect = RRR_MODBUS_SOFT_ERROR;
	else if (N < 6 + len) expect = RRR_MODBUS_INCOMPLETE;
	else {
		uint16_t rid = (uint16_t) (d[0] << 8 | d[1]);
		cb_index = rid == id ? 0 : rid == (uint16_t) (id + 1) ? 1 : -1;
		cb_id = rid;
		if (rsize < 1 || cb_index < 0) expect = RRR_MODBUS_SOFT_ERROR;
		else {
			int fn = fns[cb_index], am = amount[cb_index];
			cb_fn = fn;
			cb_err = d[7] == fn + 0x80;
			int ok;
			if (cb_err) ok = rsize == 2;
			else if (d[7] != fn) ok = 0;
			else if (fn <= 2) ok = rsize >= 2 && rsize == 2 + d[8] && d[8] == (am + 7) / 8;
			else if (fn <= 4) ok = rsize >= 2 && rsize == 2 + d[8] && d[8] == am * 2;
			else ok = rsize == 5;
			expect = ok ? cb_result : RRR_MODBUS_SOFT_ERROR;
			if (ok) cb_fn = fn; else cb_fn = -1;
		}
	}
	int may_call = cb_index >= 0 && cb_fn > 0;
	rrr_length size = N;
	int ret = rrr_modbus_client_read(c, d, &size);
	VP_ASSERT(ret == expect, "result");
	VP_ASSERT(called == (may_call && expect != RRR_MODBUS_INCOMPLETE), "answer is delivered once");
	if (ret == 0) {
		VP_ASSERT(size == (rrr_length) (6 + len), "size of frame");
		VP_ASSERT(destroyed[cb_index] == 1, "private data is destroyed");
		/* the same answer again has no request */
		rrr_length again = N;
		VP_ASSERT(rrr_modbus_client_read(c, d, &again) == RRR_MODBUS_SOFT_ERROR && called == 1, "one answer only");
#ifdef GOOD
		VP_COVER("answered");
#endif
	}
	/* the other request is still sent */
	written(c, F1, 2, (uint16_t) (id + 2));
	rrr_modbus_client_destroy(c);
	for (int i = 0; i < created; i++) VP_ASSERT(destroyed[i] == 1, "private data is destroyed once");
#endif
	VP_COVER("done");
}
