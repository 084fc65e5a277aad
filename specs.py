SPECS = []
def H(prop, id, file=None, **kw):
    kw.update(prop=prop, id=id, file=file or id + '.c')
    SPECS.append(kw)

C01Q = [{'N': 17, '_nocover': 1}, {'N': 18, 'TYPE': 0}, {'N': 29, 'TYPE': 2}, {'N': 30, 'TYPE': 2}, {'N': 34, 'TYPE': 2}, {'N': 24, 'TYPE': 8},
    {'N': 26, 'TYPE': 6}, {'N': 155, 'TYPE': 16, '_unwind': 160}, {'N': 158, 'TYPE':16, '_unwind':160}]
H('C01', 'msg_recv', srcs=['lib/messages/msg.c'], unwind=40, quick=C01Q, thorough=C01Q + [{'N': 38, 'TYPE': 2, '_timeout': 1500}, {'N': 18, 'TYPE': 8}])
H('C01', 'msg_recv_stats', srcs=['lib/stats/stats_message.c'], stubs=['memrange'])
C02Q = [{'TL': t, 'DL': d, 'CORRUPT': 0} for t, d in ((0, 0), (0, 3), (2, 0), (3, 2))] + \
       [{'TL': 2, 'DL': 3, 'CORRUPT': r} for r in (1, 2, 3)]
H('C02', 'msg_wire', srcs=['lib/messages/msg.c'], unwind=60, quick=C02Q, thorough=C02Q + [{'TL': 7, 'DL': 15, 'CORRUPT': r} for r in (0, 1, 2, 3)])
H('C02', 'crc', srcs=['lib/util/crc32.c'], unwind=70, quick=[{'MODE': 1, 'N': 1}, {'MODE': 2, 'N': 4}, {'MODE': 2, 'N': 14}, {'MODE': 4, 'N': 14}, {'MODE': 3, 'N': 2}],
  thorough=[{'MODE': 1, 'N': 1}, {'MODE': 1, 'N': 2, '_timeout': 1500}, {'MODE': 2, 'N': 14}, {'MODE': 2, 'N': 40}, {'MODE': 4, 'N': 14}, {'MODE': 4, 'N': 40, '_timeout': 2000}, {'MODE': 3, 'N': 5}])

H('C03', 'arr_rt', srcs=['lib/array.c', 'lib/type.c'], unwind=12, timeout=120, quick=[{'T1': a, 'T2': b, 'G1': g, 'G2': h, 'SAME': e} for a, b, g, h, e in ((0, 3, 1, 2, 1), (4, 1, 2, 1, 1), (3, 3, 2, 2, 1), (0, 3, 1, 1, 0), (1, 4, 2, 0, 0), (2, 5, 1, 1, 1), (6, 7, 1, 2, 0))])
C04T = ['RRR_TYPE_' + x for x in 'H FIXP BLOB STR VAIN HDLC MSG BE SEP'.split()]
C04Q = [{'N': 14, 'INVALID': 1}, {'N':13,'LENGTHS':1,'_nocover':1}, {'N':22,'LENGTHS':1}, {'N':30,'LENGTHS':1}] + \
    [{'TL': a, 'DL': b, 'TYPE': t, '_nocover': 1} for a, b in ((0, 0), (1, 3), (0, 8)) for t in C04T] + [{'TL': 0, 'DL': 18, 'TYPE': 'RRR_TYPE_MSG', '_nocover': 1}, {'TL': 1, 'DL': 31, 'TYPE': 'RRR_TYPE_MSG', '_nocover': 1}]
H('C04', 'arr_recv', srcs=['lib/array.c', 'lib/type.c'], unwind=20, timeout=300, no_ptr_rel=1, quick=C04Q, thorough=C04Q + [{'N': 14, 'INVALID': 2}, {'N': 44, 'LENGTHS': 1, '_timeout': 1200}] + [{'TL': 2, 'DL': 16, 'TYPE': t, '_nocover': 1} for t in C04T])
R4 = (1, 2, 3, 4)
C05Q = [{'NF': 4, 'NT': 4, 'VALID': 1}] + [{'NF': f, 'NT': t, 'LINEAR': 1} for f in R4 for t in R4] + \
  [{'NF': f, 'NT': t, 'VP_ALLOC_FIXED': 24, '_unwind': max(f, t) + 2} for f, t in ((1, 1), (2, 2))] + [{'NF': f, 'NT': t, 'TOKM': 1, '_unwind': 6} for f in R4 for t in R4] + [{'NF': 1, 'NT': t, 'TOK': 1, '_unwind': t + 2} for t in (1, 2, 3, 4)]
H('C05', 'mqtt_topic', srcs=['lib/mqtt/mqtt_topic.c', 'lib/util/utf8.c'], unwind=8, own_unwind=11, quick=C05Q)
H('C06', 'mqtt_acl', srcs=['lib/mqtt/mqtt_acl.c', 'lib/mqtt/mqtt_topic.c', 'lib/parse.c', 'lib/util/utf8.c'], unwind=12, own_unwind=260, defs=['-DVP_LOOP_MEMCPY'], quick=
  [{'F': f, 'LEVELS': l, 'NOUSER': n} for f in (0, 1) for l in (1, 2) for n in (0, 1)])
H('C07', 'mqtt_id', srcs=['lib/mqtt/mqtt_id_pool.c'], unwind=40, maxunwind=2100, object_bits=9, subst=[('lib/mqtt/mqtt_id_pool.h', r'(?m)^#define RRR_MQTT_ID_POOL_SIZE_IN_32 \d+', '#define RRR_MQTT_ID_POOL_SIZE_IN_32 4'), ('lib/mqtt/mqtt_id_pool.h', r'(?m)^#define RRR_MQTT_ID_POOL_STEP_SIZE_IN_32 \d+', '#define RRR_MQTT_ID_POOL_STEP_SIZE_IN_32 2')], quick=
  [{'A': 0}, {'A': 2}, {'A': 4}, {'A': 2, 'RELEASE': 1}, {'A': 4, 'RELEASE': 1}])
C08S = lambda t, v, m: [{"T": t, "V": v, "PARTS": m, "PART": r, "_nocover": 1} for r in range(m)]
C08P = lambda l: [{'T': t, 'V': v, 'ONLY': o, 'SPLIT': 1, '_nocover': 1} for t, v, o in l]
C08K = lambda l: [{'T': t, 'V': v, 'ONLY': o, 'SPLIT': k, '_nocover': 1} for t, v, o, k in l]
C08Q = C08S(3, 5, 5) + C08S(8, 4, 3) + C08S(1, 4, 4) + C08S(4, 5, 3) + C08S(8, 5, 2) + C08S(10, 4, 2) + C08S(2, 5, 2) + [{"T": t, "V": v, "_nocover": 1} for t, v in ((1, 5), (2, 4), (3, 4), (4, 4), (5, 4), (6, 4), (7, 4), (9, 4), (9, 5), (10, 5), (11, 4), (11, 5), (12, 4), (13, 4), (14, 4), (14, 5), (1, 3), (0, 4))] + C08P(((3, 4, 5), (3, 4, 17), (3, 5, 0), (4, 4, 0))) + C08K(((8, 4, 0, 7), (8, 4, 3, 10), (10, 4, 2, 9), (1, 4, 3, 17)))
C08D = C08K([(8, 4, 0, k) for k in range(2, 7)] + [(8, 4, 3, k) for k in range(2, 13)] + [(10, 4, 2, k) for k in range(2, 11)] + [(1, 4, 3, k) for k in range(2, 21)]) + C08P(((14, 5, 3), (9, 4, 0), (11, 4, 0), (2, 4, 0), (1, 4, 0), (1, 5, 0), (9, 5, 0), (10, 4, 2), (4, 5, 3))) + C08S(5, 5, 2) + C08S(6, 5, 2) + C08S(7, 5, 2) + [{"T": 12, "V": 5}, {"T": 13, "V": 5}] + [{"T": t, "V": 5, "ONLY": o, "DEEP": 1, "_nocover": 1} for t, o in ((8, 11), (8, 12), (8, 13), (10, 4))]
H('C08', 'mqtt_recv', srcs=['lib/mqtt/mqtt_parse.c', 'lib/mqtt/mqtt_packet.c', 'lib/mqtt/mqtt_property.c'], unwind=10, object_bits=12, defs=['-DVP_LOOP_MEMCPY', '-DVP_TYPED_MALLOC'],
  unwind_fn={'rrr_mqtt_p_reason_get_v5': 44, 'rrr_mqtt_p_reason_get_v31': 44, 'rrr_mqtt_property_get_definition': 32, 'memset': 300}, recursion={'rrr_mqtt_topic_token_destroy': 4, 'rrr_mqtt_property_destroy': 2, 'rrr_mqtt_property_clone': 2, '__rrr_mqtt_property_clone': 2}, quick=C08Q, thorough=C08Q + C08D)
H('C09', 'fifo', srcs=['lib/fifo.c'], unwind=7, own_unwind=20, quick=[{'OP': o, 'N': n} for o in (0, 1, 3) for n in (1, 2, 3)] + [{'OP': 3, 'N': 2, 'WR': 1}] + [{'OP': 2, 'N': n, 'AGAIN': a} for n, a in ((1, 0), (1, 1), (2, 0))] + [{'OP': 2, 'N': 3, 'AGAIN': 0, 'FEW': 1, '_cost': 99}, {'OP': 2, 'N': 2, 'AGAIN': 1, 'FEW': 1, '_cost': 99}] + [{'OP': 4, 'N': n, 'M': m} for n in (0, 2) for m in (0, 1, 2)])
H('C09', 'fifo_protected', srcs=['lib/fifo_protected.c'], defs=['-DVP_TYPED_MALLOC'], unwind=7, own_unwind=20, subst=[('lib/fifo_protected.h', r'(?m)^#define RRR_FIFO_PROTECTED_MAX_READS \d+', '#define RRR_FIFO_PROTECTED_MAX_READS 2')], quick=[{'N': n, 'D': d, 'STOP': s, 'W0': w0, 'W1': w1, 'KIND': k} for n, d, s, w0, w1, k in ((1, 0, 0, 0, 0, 0), (1, 0, 9, 1, 2, 0), (1, 0, 0, 2, 1, 1), (0, 2, 1, 1, 2, 0), (2, 0, 9, 0, 0, 0), (2, 0, 1, 1, 2, 0), (2, 0, 1, 2, 3, 1), (2, 0, 0, 3, 1, 2), (2, 1, 0, 1, 0, 0), (2, 1, 1, 3, 1, 1), (3, 0, 9, 1, 2, 0), (3, 0, 1, 0, 2, 0), (3, 0, 0, 2, 1, 2), (3, 0, 1, 3, 1, 1))] + [{'ORD': 1}, {'ORD': 3, '_cost': 99}])
H('C10', 'websocket', maxunwind=200, unwind_fn={'memcpy': 140}, subst=[('lib/websocket/websocket.c', r'RRR_ASSERT\(sizeof\(rrr_rand\)[^;]*;', '')], srcs=['lib/websocket/websocket.c'], unwind=10, own_unwind=140, defs=['-DVP_LOOP_MEMCPY'], quick=[{'LEN': l, 'MASK': m, 'FIRST': f} for l, m, f in ((0, 0, 1), (0, 1, 2), (1, 1, 2), (5, 1, 3), (5, 0, 2), (125, 0, 2), (126, 0, 3), (127, 0, 4), (125, 1, 2), (126, 1, 5), (65535, 0, 2), (65536, 0, 2))] +
  [{'LEN': 0, 'SEQ': s, 'MASK': m, 'FIRST': 2} for s in range(5) for m in (0, 1)] + [{'LEN': 0, 'RAW': 20, 'FIRST': f, '_unwind_fn': {'memcpy': 21}} for f in (1, 3, 9, 14)])
RD = ['lib/read.c']
def rd(n, b=8, **x):
    """split combinations 0..n in jobs of b each"""
    return [dict({'KEEP': 0, 'MAX': 0, 'BAD': 0, 'FROM': i, 'TO': min(i + b, n)}, **x) for i in range(0, n, b)]
H('C11', 'read', srcs=RD, unwind=12, own_unwind=70, object_bits=12, unwind_fn={'memcmp': 20}, subst=[('lib/read.c', r'#define RRR_READ_BUF_STACK_MAX_SIZE 8192', '#define RRR_READ_BUF_STACK_MAX_SIZE 2')], quick=
  rd(32, LENS='3,1,2') + rd(16, LENS='1,4', KEEP=1, STEP=2, FLAGS=32768) + rd(32, LENS='2,4', MODE=4, STEP=4) + rd(16, MODE=1, LENS='1,4', STEP=2) + rd(16, MODE=2, LENS='2,2,2', FLAGS=32768) + rd(16, MODE=3, LENS='0,2,0,0,1')
  + rd(32, SRCS=2, LENS='2,1', STEP=2) + rd(16, BAD=1, LENS='2,1,2') + rd(16, BAD=2, LENS='1,1,3', FLAGS=32768) + rd(16, BAD=3, LENS='2,5', MAX=4))
H('C12', 'increment', srcs=['lib/util/increment.c'], unwind=66, own_unwind=66, quick=[{'PART': 0}, {'PART': 1}, {'PART': 3}] + [{'PART': 2, 'MOD': m} for m in (1, 2, 3, 5, 16)] + [{'PART': 2, 'MOD': m, 'TOP': 1000} for m in (7, 10, 100, 255)], thorough=[{'PART': 2, 'MOD': m} for m in (7, 10, 100, 255, 6, 13)])
H('C13', 'base64', srcs=['lib/util/base64.c', 'lib/util/hex.c'], stubs=['printf'], unwind=10, own_unwind=70, unwind_fn={'vsnprintf': 18, 'rrr_base64_decode': 68, 'rrr_base64url_decode': 68, 'memset': 260, 'rrr_base64_encode': 24, 'rrr_base64url_encode': 24}, quick=[{'MODE': m, 'N': n} for m in (0, 1) for n in (0, 1, 2, 3, 4)] + [{'MODE': 0, 'N': n, 'NODEC': 1} for n in (53, 54, 55, 110)] + [{'MODE': 2, 'N': n} for n in (0, 1, 3)] + [{'MODE': m, 'N': n} for m in (3, 4) for n in (3, 4, 5)], thorough=[{'MODE': m, 'N': n} for m in (0, 1) for n in (5, 6)] + [{'MODE': m, 'N': n} for m in (3, 4) for n in (6, 8, 9)])
H('C14', 'slot', noauto=['lib/message_holder/message_holder_slot.c'], srcs=['lib/message_holder/message_holder.c', 'lib/message_holder/message_holder_util.c', 'lib/message_holder/message_holder_collection.c'], defs=['-DVP_TYPED_MALLOC'], unwind=7, own_unwind=20, unwind_fn={'vp_harness':12,'memcpy':200}, quick=[dict(R=r, M=m, VAR=v, LO=lo, HI=hi, STEP=st, CANCEL=c, DROP=d) for r, m, v, lo, hi, st, c, d in
   [(2, 2, 0, lo, lo + 3, 1, 0, 0) for lo in (0, 3, 6)] + [(2, 2, 0, lo, lo + 27, 9, 0, 0) for lo in (9, 36)] + [(1, 2, 1, 0, 3, 1, 0, 0), (1, 2, 1, 3, 5, 1, 0, 0), (0, 2, 1, 9, 37, 9, 0, 0), (2, 2, 2, 1, 9, 4, 0, 0), (0, 2, 2, 0, 28, 9, 0, 0),
   (0, 3, 3, 0, 2, 1, 0, 0), (0, 3, 3, 9, 28, 9, 0, 0), (2, 3, 3, 5, 6, 1, 0, 0), (1, 3, 3, 0, 1, 1, 1, 0), (2, 2, 0, 1, 6, 4, 1, 0), (1, 2, 1, 0, 2, 1, 1, 0), (0, 2, 2, 0, 2, 1, 1, 0), (1, 2, 0, 0, 5, 4, 0, 1)]],
  thorough=[dict(R=r, M=m, VAR=v, LO=lo, HI=lo + 3, STEP=1, CANCEL=c, DROP=d) for v in (0, 1, 2, 3) for r in (0, 1, 2) for m in (2, 3) for c in (0, 1) for d in (0, 1) if d == 0 or v == 0 for lo in range(0, 81, 3) if r == 2 or lo % 9 < 6])
H('C15', 'modbus', noauto=['lib/modbus/rrr_modbus.c', 'lib/util/rrr_time.c'], nobody=['rrr_string_builder_append_format'], srcs=[], subst=[('lib/modbus/rrr_modbus.c', r'#define RRR_MODBUS_CLIENT_TRANSACTION_MAX 32', '#define RRR_MODBUS_CLIENT_TRANSACTION_MAX 3')], unwind=10, own_unwind=42, unwind_fn={'vp_bytes': 265}, quick=[dict(F1=a, F2=b, N=n, POS=p, W16=w) for a, b, n, p, w in
   ((1, 3, 0, 0, 1), (1, 3, 6, 0, 1), (1, 3, 7, 0, 1), (1, 3, 9, 2, 1), (2, 4, 11, 2, 1), (6, 16, 12, 0, 2), (16, 6, 13, 2, 123), (3, 3, 14, 1, 1))] + [dict(F1=a, F2=b, N=n, POS=0, W16=1, BIG=1) for a, b, n in ((1, 3, 259),)] + [dict(F1=3, F2=3, N=1, W16=1, FULL=1, POS=p) for p in (2,)])
REL = (r'(\(|; |&& |\|\| )([a-z_]\w*(?:->\w+)?)((?: \+ \d+)?) (>=|<=|<|>) ([a-z_]\w*(?:->\w+)?)(?=\)|;| &&| \|\|)', r'\1_Generic((\2), const char *: (long) ((const char *) (\2) - (const char *) (\5)\3) \4 0, char *: (long) ((const char *) (\2) - (const char *) (\5)\3) \4 0, const unsigned char *: (long) ((const char *) (\2) - (const char *) (\5)\3) \4 0, unsigned char *: (long) ((const char *) (\2) - (const char *) (\5)\3) \4 0, default: (\2\3) \4 (\5))')
def rel(*files): return [('lib/rrr_types.h', r'(const void \*a, const void \*b\) \{\s*if \()b > a', r'\1(const char *) b - (const char *) a > 0')] + [(f,) + REL for f in files]
def uri(scheme, proto, host, port, end, mode=6): return {'MODE': mode, '_unwind': 20, 'VP_ALLOC_FIXED': 48, 'VP_LOOP_MEMCPY': 1, '_unwind_fn': {'run': 24, 'rrr_http_util_strtoull_raw': len(port) + 2, 'vp_strto': len(port) + 2}, 'SCHEME': '"%s"' % scheme, 'PROTO': '"%s"' % proto if proto else 'NULL', 'HOST': '"%s"' % host, 'PORT': '"%s"' % port, 'ENDPOINT': '"%s"' % end}
H('C16', 'http_util', subst=rel('lib/http/http_util.c'), srcs=['lib/http/http_util.c', 'lib/helpers/nullsafe_str.c'], object_bits=10, nobody=['rrr_array_push_value_str_with_tag', 'rrr_vasprintf'], unwind=10, own_unwind=12, maxunwind=40, quick=
  [{'MODE': 0, 'N': n} for n in (0, 1, 3)] + [{'MODE': 1, 'N': n, 'VP_LOOP_MEMCPY': 1, '_unwind_fn': {'vp_strto': 3, 'memcpy': 3, '__rrr_http_util_decode_urlencoded_string': n + 1, 'rrr_http_util_strtoull_raw': 3}} for n in (1, 3, 4)] + [{'MODE': 2, 'N': n, 'VP_LOOP_MEMCPY': 1} for n in (1, 2, 3)] + [{'MODE': 3, 'N': n} for n in (1, 2, 3)]
  + [{'MODE': 4, 'N': n, 'NEEDLE': '"%s"' % x} for n, x in ((3, '//'), (5, '://'), (5, 'aab'), (2, '://'), (6, 'aba'))]
  + [{'MODE': 5, 'N': n, '_unwind': 22, '_unwind_fn': {'vp_strto': 22, 'run': 22, 'strlen': 22}, 'PRE': '"%s"' % x, 'BASE': b} for n, x, b in ((3, '', 10), (3, '', 16), (20, '184467440737095516', 10), (17, 'fffffffffffffff', 16), (18, '0fffffffffffffff', 16))]
  + [uri(*x) for x in (('http://', 'http', 'a~c', '', '/x'), ('https://', 'https', 'a.B', '6553~', '/'), ('HTTPS://', 'https', 'h-9', '~', ''), ('ws://', 'ws', 'h', '', '/~'), ('wss://', 'wss', 'h.', '', '/~?'), ('', None, '', '', 'a~b'), ('ftp://', None, 'h', '', '/~'), ('http://', 'http', '', '8~', '/~'), ('wsss://', None, '~', '', '/'))]
  + [uri('', None, *x, '', 11) for x in (('a~', '80'), ('h', '~'), ('h', '6553~'), ('', '8~'), ('h~', ''))]
  + [{'MODE': 10, 'PROTO': a, 'HOST': b, 'ENDPOINT': c} for a, b, c in (('"ab"', '"cde"', '"f"'), ('NULL', '"a"', 'NULL'), ('"ab"', 'NULL', '"abcd"'))]
  + [{'MODE': 7, 'VP_ALLOC_FIXED': 48, 'VP_LOOP_MEMCPY': 1, '_unwind': 20, '_unwind_fn': {'run': 24, 'rrr_http_util_strtoull_raw': 4, 'vp_strto': 4}, 'TEXT': '"%s"' % x} for x in ('~', 'a~', 'http:/~', 'http://~', 'http://h~', 'ws://h:~', 'ws://h:1~', '/~/', 'h:8~')]
  + [{'MODE': 8, 'N': n, 'VP_LOOP_MEMCPY': 1, '_unwind_fn': {'vp_strto': 3, '__rrr_http_util_decode_urlencoded_string': n + 1, 'rrr_http_util_strtoull_raw': 3}} for n in (1, 3)] + [{'MODE': 9, 'A': a, 'B': b} for a, b in ((1, 1), (2, 0), (1, 2), (0, 2), (0, 0))])

HPN = [0]
def hp(type, kind, text, cls=1, method='0', conn='RRR_HTTP_CONNECTION_KEEPALIVE', fields=1, val='~', field=None, cuts=(), chunks=3, rounds=6, **k):
    t = text.replace('\r', '@').replace('\n', '@'); at = text.find(val) if val else 0
    d = {'TYPE': type, 'KIND': kind, 'TEXT': '"%s"' % text.replace('\r', '\\r').replace('\n', '\\n'), 'CLS': cls, 'METHOD': method, 'CONN': conn, 'FIELDS': fields, 'VAL_AT': max(at, 0), 'VAL_LEN': len(val or ''), 'LEAD': 1, 'CHUNKS': chunks, 'ROUNDS': rounds}
    if field: d['FIELD'] = '"%s"' % field
    d.update(k)
    HPN[0] += 1
    r = []
    for c in [(0, 1, 1)] + list(cuts):
        r.append(dict(d, LO=c[0], HI=c[1], STEP=c[2], _name='t%d-%s%d-cut%d-%d' % (HPN[0], 'rq' if type else 're', kind, c[0], c[1])))
    return r
H('C17', 'http_part', subst=rel('lib/http/http_part_parse.c', 'lib/http/http_header_fields.c') + [('lib/http/http_part_parse.c', r'\(size_t\) crlf - \(size_t\) pos', '(size_t) (crlf - pos)')], defs=['-DVP_LOOP_MEMCPY=1', '-DVP_TYPED_MALLOC=1'], srcs=['lib/http/http_part_parse.c', 'lib/http/http_part.c', 'lib/http/http_header_fields.c', 'lib/http/http_fields.c', 'lib/helpers/nullsafe_str.c'], noauto=['lib/http/http_util.c'], object_bits=11, unwind=24, own_unwind=60, maxunwind=140, unwind_fn={'vp_strto': 24, 'strlen': 64},
  nobody=['rrr_http_util_print_where_message', 'rrr_vasprintf', 'rrr_array_push_value_str_with_tag', 'rrr_base64_decode', 'rrr_array_collection_clear', 'rrr_http_part_header_dump'], quick=sum([
  hp(1, 0, 'POST /~ HTTP/1.1\r\nContent-Length: 1~2\r\n\r\n', method='RRR_HTTP_METHOD_POST', val='1~2', cuts=[(9, 10, 1), (21, 22, 1), (36, 37, 1), (39, 40, 1)]),
  hp(1, 0, 'PUT /~~ HTTP/1.1\r\ncontent-length:5\r\nConnection: close\r\n\r\n', cls=3, method='RRR_HTTP_METHOD_PUT', val='5', fields=2, conn='RRR_HTTP_CONNECTION_CLOSE', cuts=[(14, 15, 1), (35, 36, 1), (49, 50, 1), (56, 57, 1)]),
  hp(0, 0, 'HTTP/1.1 200 OK\r\nX-Y: a~\r\nContent-Length: 77\r\n\r\n', cls=3, method='200', val='77', fields=2, cuts=[(10, 11, 1), (25, 26, 1), (40, 41, 1), (45, 46, 1)]),
  hp(0, 0, 'HTTP/1.0 404 Not ~\r\nContent-Length: 0\r\n\r\n', cls=3, method='404', val='0', conn='RRR_HTTP_CONNECTION_CLOSE', cuts=[(9, 10, 1), (18, 19, 1), (27, 28, 1), (36, 37, 1)]),
  hp(1, 1, 'GET /a~b HTTP/1.1\r\nHost: x~z\r\n\r\n', cls=3, method='RRR_HTTP_METHOD_GET', val='x~z', field='host', cuts=[(8, 9, 1), (18, 19, 1), (30, 31, 1), (32, 33, 1)]),
  hp(1, 1, 'DELETE /?a=~ HTTP/1.0\r\n\r\n', cls=3, method='RRR_HTTP_METHOD_DELETE', val=None, fields=0, conn='RRR_HTTP_CONNECTION_CLOSE', cuts=[(6, 7, 1), (13, 14, 1), (24, 25, 1), (25, 26, 1)]),
  hp(1, 1, 'GET / HTTP/1.0\r\nConnection: keep-alive\r\nX-A: c~b \r\n\r\n', cls=3, method='RRR_HTTP_METHOD_GET', val='c~b', field='x-a', fields=2, cuts=[(12, 13, 1), (30, 31, 1), (42, 43, 1), (48, 49, 1)]),
  hp(0, 2, 'HTTP/1.1 200 OK\r\nServer: c~x\r\n\r\nabc', cls=3, method='200', val='c~x', field='server', cuts=[(10, 11, 1), (15, 16, 1), (20, 21, 1), (25, 26, 1)]),
  hp(0, 1, 'HTTP/1.1 204 No\r\nServer: c~x\r\n\r\n', cls=3, method='204', val='c~x', field='server', cuts=[(10, 11, 1), (15, 16, 1), (20, 21, 1), (25, 26, 1)]),
  hp(0, 1, 'HTTP/1.1 101 Sw\r\nConnection: Upgrade\r\n\r\n', cls=3, method='101', val='Upgrade', field='connection', cuts=[(10, 11, 1), (15, 16, 1), (20, 21, 1), (25, 26, 1)]),
  hp(0, 0, 'HTTP/1.1 200 OK\r\nX-E:\r\nContent-Length: 3~9\r\n\r\n', cls=1, method='200', val='3~9', fields=2, cuts=[(12, 13, 1), (24, 25, 1), (42, 43, 1), (45, 46, 1)]),
  hp(0, 0, 'HTTP/1.1 200 OK\r\nX-E: \r\nContent-Length: 3~9\r\n\r\n', cls=1, method='200', val='3~9', fields=2, cuts=[(12, 13, 1), (24, 25, 1), (42, 43, 1), (45, 46, 1)]),
  hp(1, 0, 'PUT / HTTP/1.1\r\nContent-Length: 18446744073709551615\r\n\r\n', method='RRR_HTTP_METHOD_PUT', val='18446744073709551615'),
  hp(1, 0, 'PUT / HTTP/1.1\r\nContent-Length: 18446744073709551616\r\n\r\n', method='RRR_HTTP_METHOD_PUT', val='18446744073709551616')]
  + [hp(1, 3, x, cls=1, val=None) for x in ('FOO / HTTP/1.1\r\n\r\n', 'GET / HTTP/1.2\r\n\r\n', 'GET / HTTP/1.1x\r\n\r\n', 'get / HTTP/1.1\r\n\r\n', 'PUT / HTTP/1.1\r\nX~\r\n\r\n', '\r\n\r\n', 'GET /\r\n\r\n', 'PUT / HTTP/1.1\r\nContent-Length:\r\n\r\n')]
  + [hp(0, 3, x, cls=1, val=None) for x in ('HTTP/1.2 200 OK\r\n\r\n', 'HTTP/1.1 1000 OK\r\n\r\n', 'HTTP/1.1 OK long\r\n\r\n')]
  + [hp(0, 4, x, cls=c, cuts=[(i, i + 1, 1) for i in range(3, h, 4)]) for x, c, h in (('xx3\r\n\r\n0\r\n0\r\n\r\n', 0, 17), ('xx1\r\n~\r\n2\r\n~~\r\n0\r\n\r\n', 0, 23), ('xx3\r\n~~~\r\n0\r\n\r\n', 0, 18), ('xxA\r\n~~~~~~~', 0, 14), ('xx2\r\n~~0\r\n\r\n', 0, 1), ('xxffffffffffffffff\r\nabc', 0, 1), ('xxfffffffffffffff0\r\nabc', 0, 1), ('xx10000000000000000\r\nabc', 0, 1), ('xx1\r\na\r\nfffffffffffffffe\r\nabc', 0, 1), ('xx1\r\nafffffffffffffff8\r\nabc', 0, 1), ('xx0000000000000000003\r\nabc\r\n0\r\n\r\n', 0, 1), ('xxg\r\nab', 0, 9), ('xx2\r\n~~1\r\nx\r\n0\r\n\r\n', 0, 20), ('xx2 \r\nab\r\n0\r\n\r\n', 0, 1), ('xx-1\r\nab\r\n0\r\n\r\n', 0, 1), ('xx0x1\r\na\r\n0\r\n\r\n', 0, 1))], []))
