/* Contract of BEAST_encode (C01) used by its callers, and the reading of a framed message.
 * In the proof the encoded bytes are abstract: the contract says that out[0..r) is the escaping of in[0..len) with
 * len <= r <= 2*len, and the reader checks that the message consists of such encodings, unaltered, one after the other
 * (checked at one arbitrary byte position). Natively (replay, search) the bytes are the real ones. */
#include "core/beast.h"
#define VF_ENC_MAX 4
#ifndef VF_ENC_BODY
#define VF_ENC_BODY 40
#endif
static unsigned vf_encodes;
#ifndef VERIF_NATIVE
static struct { const uint8_t *out; uint8_t body[VF_ENC_BODY]; size_t len, ret; uint8_t wit; } vf_enc[VF_ENC_MAX];
static size_t vf_W;      /* arbitrary byte position of an encoding */
#endif
size_t BEAST_encode(uint8_t *__restrict out, const uint8_t *__restrict in, size_t len)
{
#ifndef VERIF_NATIVE
	CHECK(__CPROVER_r_ok(in, len), "block to encode is readable");
	CHECK(__CPROVER_w_ok(out, 2 * len), "room for the longest encoding of the block");
	UNDECIDED(len <= VF_ENC_BODY && vf_encodes < VF_ENC_MAX, "block longer than the model");
	size_t r = ND_RANGE(0, 2 * VF_ENC_BODY);
	ASSUME(r >= len && r <= 2 * len);
	for (size_t i = 0; i < VF_ENC_BODY; ++i)
		if (i < len) vf_enc[vf_encodes].body[i] = in[i];
	vf_enc[vf_encodes].out = out; vf_enc[vf_encodes].len = len; vf_enc[vf_encodes].ret = r;
	vf_enc[vf_encodes].wit = ND_U8();
	if (vf_W < r) out[vf_W] = vf_enc[vf_encodes].wit;
	++vf_encodes;
	return r;
#else
	vf_nd(); vf_nd();       /* choices of the abstract contract */
	for (size_t i = 0; i < 2 * len; ++i) out[i] = 0xee;
	size_t n = 0;
	for (size_t i = 0; i < len; ++i) {
		out[n++] = in[i];
		if (in[i] == 0x1a) out[n++] = 0x1a;
	}
	++vf_encodes;
	return n;
#endif
}
static void vf_msg_begin(void)
{
	vf_encodes = 0;
#ifndef VERIF_NATIVE
	vf_W = ND_RANGE(0, 2 * VF_ENC_BODY - 1);
#else
	vf_nd();
#endif
}
/* is buf[0..len) the frame SYNC type escape(body[0..blen))? */
static bool vf_is_msg(const uint8_t *buf, size_t len, uint8_t type, const uint8_t *body, size_t blen)
{
	if (len < 2 + blen || buf[0] != 0x1a || buf[1] != type) return false;
	size_t n = 2;
#ifndef VERIF_NATIVE
	size_t b = 0;
	for (unsigned k = 0; k < VF_ENC_MAX; ++k)
		if (k < vf_encodes) {
			if (vf_enc[k].out != buf + n || vf_enc[k].len > blen - b) return false;
			for (unsigned i = 0; i < VF_ENC_BODY; ++i)
				if (i < vf_enc[k].len && vf_enc[k].body[i] != body[b + i]) return false;
			if (vf_W < vf_enc[k].ret && buf[n + vf_W] != vf_enc[k].wit) return false;
			b += vf_enc[k].len; n += vf_enc[k].ret;
		}
	vf_encodes = 0;
	return b == blen && n == len;
#else
	for (size_t i = 0; i < blen; ++i) {
		if (n >= len || buf[n] != body[i]) return false;
		++n;
		if (body[i] == 0x1a) { if (n >= len || buf[n] != 0x1a) return false; ++n; }
	}
	return n == len;
#endif
}
static void vf_be64(uint8_t *p, uint64_t v) { for (int i = 7; i >= 0; --i) { p[i] = v; v >>= 8; } }
static void vf_be32(uint8_t *p, uint32_t v) { for (int i = 3; i >= 0; --i) { p[i] = v; v >>= 8; } }
static uint64_t vf_dbits(double d) { union { double d; uint64_t u; } x; x.d = d; return x.u; }
static double vf_dof(uint64_t u) { union { double d; uint64_t u; } x; x.u = u; return x.d; }
