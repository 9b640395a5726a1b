/* Specification automaton of the receiver stream (C02), written from the property text.
 * It consumes the stream byte by byte. */
enum gs { G_START, G_RESYNC, G_RESYNC1, G_TYPE, G_BODY, G_DONE };
struct ghost {
	enum gs st;
	bool esc;             /* body: previous byte was a SYNC */
	uint8_t type;
	unsigned need, got;   /* unescaped body bytes wanted / seen: 6 timestamp, 1 level, payload */
	/* contents are tracked at one arbitrary but fixed position each (universal quantification) */
	uint8_t bodyK;        /* body byte WB */
	unsigned nraw;        /* raw length so far */
	uint8_t rawK;         /* raw byte WR */
	uint64_t oos, unk;    /* statistics: out of sync, unknown type */
};
static unsigned WB, WR;
#define G_RAW(i, b) do { if (WR == (i)) g->rawK = (b); } while (0)
static void g_type(struct ghost *g, uint8_t b)
{
	g->got = 0; g->esc = false;
	switch (b) {
	case '1': g->need = 7 + 2; break;
	case '2': g->need = 7 + 7; break;
	case '3': g->need = 7 + 14; break;
	case '4': g->need = 7 + 14; break;
	case 0x1a: ++g->oos; g->st = G_RESYNC; return;
	default: ++g->unk; g->st = G_RESYNC; return;
	}
	g->type = b; g->st = G_BODY;
	G_RAW(0, 0x1a); G_RAW(1, b); g->nraw = 2;
}
static void g_put(struct ghost *g, uint8_t b)
{
	if (g->got == WB) g->bodyK = b;
	if (++g->got == g->need) g->st = G_DONE;
}
static void g_step(struct ghost *g, uint8_t b)
{
	switch (g->st) {
	case G_START: if (b == 0x1a) g->st = G_TYPE; else { ++g->oos; g->st = G_RESYNC; } break;
	case G_RESYNC: if (b == 0x1a) g->st = G_RESYNC1; break;
	case G_RESYNC1: if (b == 0x1a) g->st = G_RESYNC; else g_type(g, b); break;
	case G_TYPE: g_type(g, b); break;
	case G_BODY:
		if (g->esc && b != 0x1a) { ++g->oos; g_type(g, b); break; }
		G_RAW(g->nraw, b);
		++g->nraw;
		if (g->esc) { g->esc = false; g_put(g, 0x1a); }
		else if (b == 0x1a) g->esc = true;
		else g_put(g, b);
		break;
	case G_DONE: break;
	}
}
/* postcondition of a successful read */
static void g_post(const struct ghost *g, const struct OPENSKY_RawFrame *raw, const struct OPENSKY_DecodedFrame *dec)
{
	CHECK(dec->frameType == g->type, "frame type is the type byte of the stream");
	CHECK(dec->payloadLen == g->need - 7, "payload length belongs to the type");
	/* field bytes WB, raw byte WR: arbitrary */
	if (WB < 6) CHECK((uint8_t)(dec->mlat >> (8 * (5 - WB))) == g->bodyK, "timestamp is the unescaped 48-bit big-endian field");
	CHECK(dec->mlat >> 48 == 0, "timestamp has 48 bits");
	if (WB == 6) CHECK((uint8_t)dec->siglevel == g->bodyK, "signal level is the unescaped field");
	if (WB > 6 && WB < g->need) CHECK(dec->payload[WB - 7] == g->bodyK, "payload is the unescaped payload");
	CHECK(raw->rawLen == g->nraw, "raw length is the frame's length in the stream");
	if (WR < g->nraw) CHECK(raw->raw[WR] == g->rawK, "raw frame is the frame as it is in the stream");
}
