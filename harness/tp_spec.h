/* Specification automaton of the GPS receiver stream (C03), written from the property text.
 * It consumes the stream byte by byte. */
enum ts { T_START, T_RESYNC, T_RESYNC1, T_TYPE, T_BODY, T_DONE };
struct tghost {
	enum ts st;
	bool esc;           /* body: previous byte was a DLE */
	size_t cap;         /* caller's buffer size */
	size_t got;         /* content bytes, the identifier included */
	uint8_t kb;         /* content byte WB (arbitrary but fixed position) */
};
static size_t WB;
#define DLE 0x10
#define ETX 0x03
static void t_put(struct tghost *g, uint8_t b)
{
	if (g->got == WB) g->kb = b;
	if (++g->got == g->cap) g->st = T_RESYNC;    /* does not fit: dropped */
}
static void t_type(struct tghost *g, uint8_t b)
{
	if (b == DLE || b == ETX) { g->st = T_RESYNC; return; }   /* no packet begins with these */
	g->st = T_BODY; g->esc = false; g->got = 0;
	t_put(g, b);
}
static void t_step(struct tghost *g, uint8_t b)
{
	switch (g->st) {
	case T_START: g->st = b == DLE ? T_TYPE : T_RESYNC; break;
	case T_RESYNC: if (b == DLE) g->st = T_RESYNC1; break;
	case T_RESYNC1: t_type(g, b); break;
	case T_TYPE: t_type(g, b); break;
	case T_BODY:
		if (!g->esc) { if (b == DLE) g->esc = true; else t_put(g, b); }
		else if (b == ETX) g->st = T_DONE;
		else if (b == DLE) { g->esc = false; t_put(g, b); }
		else t_type(g, b);          /* lost the rest: another packet begins */
		break;
	case T_DONE: break;
	}
}
