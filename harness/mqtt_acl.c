/* MQTT ACL file: the bottom most matching rule decides */
#include "vp.h"
#include "lib/mqtt/mqtt_acl.h"
#include "lib/mqtt/mqtt_topic.h"
#include "lib/allocator.h"
#include "lib/socket/rrr_socket.h"
static char text[240]; static int len;
int rrr_socket_open_and_read_file (char **result, rrr_biglength *result_bytes, const char *filename, int options, int mode) {
	(void) filename; (void) options; (void) mode;
	char *c = rrr_allocate(240);
	for (int i = 0; i < 240; i++) c[i] = text[i];
	*result = c; *result_bytes = (rrr_biglength) len;
	return 0;
}
static void put(const char *s) { while (*s) text[len++] = *s++; }
static const char *act[] = {"DENY", "READ", "WRITE"};
/* concrete rules, arbitrary topic, user and access level */
static const struct { const char *t; int d; const char *u[2]; int a[2]; } rules[2][4] = {
	{ {"#", 2, {0}, {0}}, {"a/#", -1, {"x", "yy"}, {1, 2}}, {"a/+", 1, {"x", 0}, {0, 0}}, {"b", 0, {"yy", "x"}, {2, 1}} },
	{ {"a", 1, {"x", "x"}, {0, 2}}, {"+", -1, {"yy", 0}, {1, 0}}, {"$", 2, {0}, {0}}, {"a/b", -1, {"yy", 0}, {2, 0}} },
};
void vp_harness(void) {
	struct rrr_mqtt_acl acl = {0};
	for (int i = 0; i < 4; i++) {
		put(i == 1 ? "\n # c\n\tTOPIC\t" : "TOPIC "); put(rules[F][i].t); put("\n");
		if (rules[F][i].d >= 0) { put(i & 1 ? "\tdefault " : "DEFAULT  "); put(act[rules[F][i].d]); put("\r\n"); }
		for (int k = 0; k < 2; k++) if (rules[F][i].u[k]) { put("USER "); put(rules[F][i].u[k]); put(" "); put(act[rules[F][i].a[k]]); if (i != 3) put("\n"); else if (k == 0 && rules[F][i].u[1]) put("\n#\n"); }
	}
	VP_ASSERT(rrr_mqtt_acl_entry_collection_populate_from_file(&acl, "f") == 0, "file is accepted");
	VP_ASSERT(RRR_LL_COUNT(&acl) == 4, "all rules are there");
	/* topic of one or two levels */
	char t[4] = {(char) vp_u8(), 0, 0, 0}, user[3];
	VP_ASSUME((t[0] >= 'a' && t[0] <= 'z') || t[0] == '$');
#if LEVELS == 2
	t[1] = '/'; t[2] = (char) vp_u8();
	VP_ASSUME((t[2] >= 'a' && t[2] <= 'z') || t[2] == '$');
#endif
	vp_bytes(user, 2); user[2] = 0;
	int want = vp_bool() ? RRR_MQTT_ACL_ACTION_RW : RRR_MQTT_ACL_ACTION_RO;
	int allowed = 0; /* no rule: denied */
	for (int i = 0; i < 4; i++) {
		const char *f = rules[F][i].t;
		int fl = f[1] == '/' ? 2 : 1, m;
		if (f[0] == '#') m = t[0] != '$';
		else {
			m = f[0] == '+' ? t[0] != '$' : t[0] == f[0];
			if (fl != LEVELS) m = 0;
			if (fl == 2 && LEVELS == 2) m = m && (f[2] == '#' || f[2] == '+' ? t[2] != '$' : t[2] == f[2]);
		}
		if (!m) continue;
		int a = rules[F][i].d >= 0 ? rules[F][i].d : 0;
		for (int k = 0; k < 2; k++) if (rules[F][i].u[k] && user[0] == rules[F][i].u[k][0] && user[1] == rules[F][i].u[k][1]) a = rules[F][i].a[k];
		allowed = a >= want;
	}
	struct rrr_mqtt_topic_token *first = NULL;
	VP_ASSERT(rrr_mqtt_topic_tokenize(&first, LEVELS == 2 ? "q/q" : "q") == 0, "topic");
	first->data[0] = t[0];
	if (LEVELS == 2) first->next->data[0] = t[2];
	int r = rrr_mqtt_acl_check_access(&acl, first, want, NOUSER ? NULL : user, rrr_mqtt_topic_match_tokens_recursively);
	if (NOUSER) VP_ASSUME(user[0] == 0);
	VP_ASSERT(r == (allowed ? RRR_MQTT_ACL_RESULT_ALLOW : RRR_MQTT_ACL_RESULT_DENY), "bottom most matching rule decides");
	if (allowed) VP_COVER("allowed"); else VP_COVER("denied");
	rrr_mqtt_topic_token_destroy(first);
	rrr_mqtt_acl_entry_collection_clear(&acl);
}
