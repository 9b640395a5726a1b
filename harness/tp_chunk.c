/* C03 through the public interface: connect, then packet reads over an arbitrary stream of up to SLEN bytes
 * delivered in arbitrary chunks, after which the input fails. */
#define VF_MEMCPY_LOOP
#include "stubs.h"
#include "libc_models.h"
#include "trimble/trimble_parser.h"
#include "trimble/trimble_input.h"
#include "tp_spec.h"
static uint8_t S[SLEN];
static unsigned slen, spos;
static bool failed;
static unsigned connects, writes;
#include "gen_trimble_parser.c"
void TRIMBLE_INPUT_register() {}
void TRIMBLE_INPUT_init() {}
void TRIMBLE_INPUT_disconnect() {}
void TRIMBLE_INPUT_connect() { ++connects; }
size_t TRIMBLE_INPUT_write(const uint8_t *b, size_t l)
{
	static const uint8_t utc[8] = { 0x10, 0x35, 0x04, 0x00, 0x01, 0x08, 0x10, 0x03 };
	CHECK(l == 8 && !memcmp(b, utc, 8), "the receiver is configured");
	CHECK(connects == writes + 1, "configured once per connection");
	++writes;
	if (writes < 3 && ND_BOOL()) return ND_RANGE(0, 7);
	return l;
}
size_t TRIMBLE_INPUT_read(uint8_t *b, size_t len)
{
	CHECK(!failed, "input is not read again after it failed");
	if (spos == slen) { failed = true; return 0; }
	unsigned n = ND_RANGE(1, SLEN);
	ASSUME(n <= slen - spos && n <= len);
	for (unsigned i = 0; i < SLEN; ++i)
		if (i < n) b[i] = S[spos + i];
	spos += n;
	return n;
}
VF_BIAS(0x10, 0x10, 0x10, 0x03, 0x03, 0x41, 0x8f)
int main(void)
{
	struct tghost G = { 0 };
	uint8_t *out;
	slen = ND_RANGE(0, SLEN);
	for (unsigned i = 0; i < SLEN; ++i) S[i] = ND_U8();
	G.cap = ND_RANGE(2, CAP); WB = ND_RANGE(0, CAP - 1);
	out = malloc(G.cap);
	ASSUME(out != NULL);
	TRIMBLE_PARSER_connect();
	CHECK(connects == writes && connects >= 1, "connected and configured");
	unsigned pos = 0;
	for (int f = 0; f < FRAMES; ++f) {
		size_t r = TRIMBLE_PARSER_getFrame(out, G.cap);
		G.st = T_START;
		for (unsigned i = 0; i < SLEN; ++i)
			if (pos < slen && G.st != T_DONE) { t_step(&G, S[pos]); ++pos; }
		CHECK((r != 0) == (G.st == T_DONE), "a packet is delivered exactly when the stream contains a complete one");
		if (!r) { CHECK(failed, "failure only if the input failed"); REACH("end of stream"); break; }
		CHECK(r == G.got, "the length is the number of content bytes");
		if (WB < r) CHECK(out[WB] == G.kb, "the content is the unescaped packet");
		if (f == FRAMES - 1) REACH("packet decoded");
	}
	free(out);
	return 0;
}
