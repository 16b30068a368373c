/* C29: TLS contexts: exactly the versions, certificates, authorities, ciphers and protocols they were given, or none at all */
#define KEEP_SSL_INIT
#include <ctype.h>
#include "common.h"
#include "kgl_ssl.h"
#include <openssl/rand.h>
#include <openssl/x509.h>
#include <sys/stat.h>
#include "C11_pem.h"
GHOST static int live[4]; /* TLS objects, contexts, certificates, keys */
static void ex_new(void *, void *, CRYPTO_EX_DATA *, int, long l, void *) { live[l]++; }
static void ex_free(void *, void *, CRYPTO_EX_DATA *, int, long l, void *) { live[l]--; }
GHOST static unsigned rctr[64];
static int drand(unsigned char *b, int n) { unsigned t = kmc_tid() & 63; uint64_t x = ++rctr[t] * 2654435761u + t * 977; for (int i = 0; i < n; i++) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; b[i] = x >> 24; } return 1; }
static int dstat(void) { return 1; }
static RAND_METHOD rmeth = { NULL, drand, NULL, NULL, drand, dstat };
static char dir[300];
static char *path(const char *n) { static char p[8][400]; static int k; char *r = p[k++ & 7]; snprintf(r, 400, "%s/%s", dir, n); return r; }
static void put(const char *n, const char *a, const char *b, const char *c) { FILE *f = fopen(path(n), "w"); if (!f) abort(); const char *v[3] = { a, b, c }; for (int i = 0; i < 3 && v[i]; i++) fwrite(v[i], 1, strlen(v[i]), f); if (fclose(f)) abort(); }
static void npn(SSL *, void *data, const unsigned char **o, unsigned *l) { *o = (const unsigned char *)(*(int *)data == 1 ? "\x02h2" : "\x02h2\x08http/1.1"); *l = *(int *)data == 1 ? 3 : 12; }
static char *concat(const char *a, const char *b) { char *r = (char *)malloc(strlen(a) + strlen(b) + 1); strcpy(r, a); strcat(r, b); return r; }
static char *pem_chain, *pem_both, *pem_both_chain;
/* OpenSSL initialises itself once, in the parent of all runs; certificate files beside the program, which is removed with them */
__attribute__((constructor)) static void warm(void) {
	OPENSSL_init_ssl(OPENSSL_INIT_NO_LOAD_CONFIG, NULL); RAND_set_rand_method(&rmeth); kssl_init(npn, NULL, NULL);
	SSL_get_ex_new_index(0, NULL, ex_new, NULL, ex_free); SSL_CTX_get_ex_new_index(1, NULL, ex_new, NULL, ex_free); CRYPTO_get_ex_new_index(CRYPTO_EX_INDEX_X509, 2, NULL, ex_new, NULL, ex_free); CRYPTO_get_ex_new_index(CRYPTO_EX_INDEX_EVP_PKEY, 3, NULL, ex_new, NULL, ex_free);
	ssize_t n = readlink("/proc/self/exe", dir, sizeof dir - 10); if (n <= 0) abort(); dir[n] = 0; strcpy(strrchr(dir, '/'), "/pem"); mkdir(dir, 0755);
	put("a.crt", pem_ca + 5, 0, 0); put("b.crt", pem_cb + 5, 0, 0); put("a.key", pem_ka + 5, 0, 0); put("b.key", pem_kb + 5, 0, 0); put("chain.crt", pem_ca + 5, pem_cb + 5, 0); put("both", pem_ka + 5, pem_ca + 5, 0); put("bothchain", pem_ca + 5, pem_ka + 5, pem_cb + 5); put("bad", "-----BEGIN CERTIFICATE-----\nAAAA\n-----END CERTIFICATE-----\n", 0, 0); put("empty", "", 0, 0); put("badchain.crt", pem_ca + 5, "-----BEGIN CERTIFICATE-----\nAAAA\n-----END CERTIFICATE-----\n", 0);
	pem_chain = concat(pem_ca, pem_cb + 5); pem_both = concat(pem_ka, pem_ca + 5); pem_both_chain = concat(pem_both, pem_cb + 5);
	BIO *b = BIO_new_mem_buf(pem_ca + 5, -1); X509 *x = PEM_read_bio_X509(b, 0, 0, 0); char h[40]; snprintf(h, sizeof h, "cas/%08lx.0", X509_NAME_hash(X509_get_subject_name(x))); mkdir(path("cas"), 0755); put(h, pem_ca + 5, 0, 0); X509_free(x); BIO_free(b);
	for (int v = TLS1_VERSION; v <= TLS1_3_VERSION; v++) { SSL_CTX *s = SSL_CTX_new(TLS_server_method()), *c = SSL_CTX_new(TLS_client_method()); SSL_CTX_set_max_proto_version(s, v); SSL_CTX_set_cipher_list(s, "DEFAULT@SECLEVEL=0"); SSL_CTX_set_cipher_list(c, "DEFAULT@SECLEVEL=0"); BIO *b = BIO_new_mem_buf(pem_ca + 5, -1), *k = BIO_new_mem_buf(pem_ka + 5, -1); X509 *x = PEM_read_bio_X509(b, 0, 0, 0); EVP_PKEY *pk = PEM_read_bio_PrivateKey(k, 0, 0, 0); SSL_CTX_use_certificate(s, x); SSL_CTX_use_PrivateKey(s, pk); X509_free(x); EVP_PKEY_free(pk); BIO_free(b); BIO_free(k);
		SSL *ss = SSL_new(s), *cs = SSL_new(c); SSL_set_accept_state(ss); SSL_set_connect_state(cs); BIO *b1, *b2; BIO_new_bio_pair(&b1, 0, &b2, 0); SSL_set_bio(ss, b1, b1); SSL_set_bio(cs, b2, b2); for (int i = 0; i < 10; i++) { SSL_do_handshake(cs); SSL_do_handshake(ss); } SSL_free(ss); SSL_free(cs); SSL_CTX_free(s); SSL_CTX_free(c); }
	ERR_clear_error(); memset(rctr, 0, sizeof rctr); memset(live, 0, sizeof live);
}
static kgl_ref_str_t *rs(const char *s) { static kgl_ref_str_t r[4]; static int k; if (!s) return NULL; kgl_ref_str_t *x = &r[k++ & 3]; memset(x, 0, sizeof *x); x->data = (char *)s; x->len = strlen(s); x->ref = 1; return x; }
static void all_freed(void) { CHECK(live[0] == 0, "%d TLS objects left", live[0]); CHECK(live[1] == 0, "%d contexts left", live[1]); CHECK(live[2] == 0, "%d certificates left", live[2]); CHECK(live[3] == 0, "%d keys left", live[3]); }
/* both ends in memory; 1: the handshake ended well on both sides; the library's side goes through kgl_ssl_handshake */
static SSL *Ss, *Cs;
static int shake(SSL_CTX *s, SSL_CTX *c, const char *alpn, SSL_SESSION *sess) {
	Ss = SSL_new(s); Cs = SSL_new(c); CHECK(Ss && Cs, "ssl"); SSL_set_accept_state(Ss); SSL_set_connect_state(Cs); BIO *b1, *b2; BIO_new_bio_pair(&b1, 0, &b2, 0); SSL_set_bio(Ss, b1, b1); SSL_set_bio(Cs, b2, b2); if (alpn) SSL_set_alpn_protos(Cs, (const unsigned char *)alpn, strlen(alpn)); if (sess) SSL_set_session(Cs, sess);
	int a = ret_want_read, b = ret_want_read; for (int i = 0; i < 12 && a != ret_error && b != ret_error && !(a == ret_ok && b == ret_ok); i++) { if (b != ret_ok) b = kgl_ssl_handshake(Cs); if (a != ret_ok) a = kgl_ssl_handshake(Ss); CHECK(a != ret_sni_resolve && b != ret_sni_resolve, "state"); if (a == ret_ok && b == ret_ok) { char t[8]; /* a client certificate may be refused only now */ if (SSL_write(Ss, "x", 1) != 1) a = ret_error; else if (SSL_read(Cs, t, 8) != 1) b = ret_error; } }
	return a == ret_ok && b == ret_ok;
}
static void unshake(void) { SSL_free(Ss); SSL_free(Cs); }
static SSL_CTX *raw_ctx(int server, int lo, int hi) { SSL_CTX *x = SSL_CTX_new(server ? TLS_server_method() : TLS_client_method()); SSL_CTX_set_min_proto_version(x, lo); SSL_CTX_set_max_proto_version(x, hi); SSL_CTX_set_cipher_list(x, "DEFAULT@SECLEVEL=0"); if (server) { BIO *b = BIO_new_mem_buf(pem_ca + 5, -1), *k = BIO_new_mem_buf(pem_ka + 5, -1); X509 *c = PEM_read_bio_X509(b, 0, 0, 0); EVP_PKEY *pk = PEM_read_bio_PrivateKey(k, 0, 0, 0); SSL_CTX_use_certificate(x, c); SSL_CTX_use_PrivateKey(x, pk); X509_free(c); EVP_PKEY_free(pk); BIO_free(b); BIO_free(k); } return x; }
#define F KMC_F_FORK | KMC_F_SEQ
/* ---- versions */
static const char *VN[] = { "SSLv2", "SSLv3", "TLSv1", "TLSv1.1", "TLSv1.2", "TLSv1.3" };
static void list(char *o, int mask, int style) { static const char *SEP[] = { " ", "  ", "\t", " \n", "\n", "\r\n" }; *o = 0; if (style == 1) strcat(o, "  "); if (style == 3) strcat(o, "TLSv1.4 "); for (int j = 0; j < 6; j++) { int i = style & 1 ? 5 - j : j; if (!(mask >> i & 1)) continue; char t[16]; strcpy(t, VN[i]); if (style == 2) for (char *p = t; *p; p++) *p = tolower(*p); if (style == 3) for (char *p = t; *p; p++) *p = toupper(*p); if (*o && o[strlen(o) - 1] > ' ') strcat(o, SEP[style]); strcat(o, t); } if (style == 2) strcat(o, " tls"); if (style == 1) strcat(o, " "); }
static void versions(int server, int before) {
	kmc_explore(0); SSL_CTX *x = server ? kgl_ssl_ctx_new_server2(rs(pem_ca), rs(pem_ka), NULL, NULL, NULL) : kgl_ssl_ctx_new_client(NULL, NULL, NULL); CHECK(x, "context"); char l[200], l0[200] = "(none)"; int mask = before == 2 ? (kmc_choose(2) ? 60 : 4 << kmc_choose(4)) : kmc_choose(64), style = before == 2 ? 0 : kmc_choose(6); list(l, mask, style);
	if (before) { int m0 = before == 2 ? 4 << kmc_choose(4) : kmc_choose(64); list(l0, m0, 0); kgl_ssl_ctx_set_protocols(x, l0); } int empty = !mask && (style == 0 || style > 3); kgl_ssl_ctx_set_protocols(x, empty && before ? " " : l); CHECK(kgl_ssl_ctx_set_cipher_list(x, "DEFAULT@SECLEVEL=0"), "ciphers"); int eff = empty && !before ? 60 : mask & 60; if (!server && eff) { int lo = 2; while (!(eff >> lo & 1)) lo++; int hi = lo; while (eff >> (hi + 1) & 1) hi++; eff = (2 << hi) - (1 << lo); } /* OpenSSL offers one range */ if (before && !kmc_choose(4)) kgl_ssl_ctx_set_early_data(x, kmc_choose(2));
	for (int v = 2; v < 6; v++) { int ver = TLS1_VERSION + v - 2; SSL_CTX *p = raw_ctx(!server, ver, ver); int ok = server ? shake(x, p, 0, 0) : shake(p, x, 0, 0); CHECK(ok == (eff >> v & 1), "\"%s\" then \"%s\": %s %s", l0, l, VN[v], ok ? "accepted" : "refused"); if (ok) CHECK(!strcmp(SSL_get_version(Ss), VN[v]), "version %s", SSL_get_version(Ss)); unshake(); SSL_CTX_free(p); }
	if (server) { SSL_CTX *p = raw_ctx(0, TLS1_VERSION, TLS1_3_VERSION); int ok = shake(x, p, 0, 0), top = 0; for (int v = 2; v < 6; v++) if (eff >> v & 1) top = v; CHECK(ok == (top > 0), "\"%s\": %s", l, ok ? "accepted" : "refused"); if (ok) CHECK(!strcmp(SSL_get_version(Ss), VN[top]), "\"%s\" agreed on %s", l, SSL_get_version(Ss)); unshake(); SSL_CTX_free(p); }
	SSL_CTX_free(x); all_freed(); kmc_end();
}
SCEN(server_versions, B({0,0}), B({0,0}), 9000, 0, F) { versions(1, 0); }
SCEN(client_versions, B({0,0}), B({0,0}), 9000, 0, F) { versions(0, 0); }
SCEN(version_changed, B({0,0}), B({-1,-1}), 9000, 0, F) { versions(kmc_choose(2), 2); } /* thorough: every pair, below */
SCEN(version_changes, B({-1,-1}), B({0,0}), 9000, 0, F) { versions(kmc_choose(2), 1); }
/* ---- certificates and keys, from memory and from files */
struct what { const char *mem, *file; int cert, key, chain; }; /* cert: 0 none, 1 a, 2 b; key the same */
static what W[] = { { pem_ca, "a.crt", 1, 0, 0 }, { pem_cb, "b.crt", 2, 0, 0 }, { pem_ka, "a.key", 0, 1, 0 }, { pem_kb, "b.key", 0, 2, 0 }, { NULL, "chain.crt", 1, 0, 1 }, { NULL, "both", 1, 1, 0 }, { NULL, "bothchain", 1, 1, 1 }, { "data:nothing", "bad", 0, 0, 0 }, { "data:", "empty", 0, 0, 0 }, { "/nonexistent", "missing", 0, 0, 0 }, { "data:-----BEGIN CERTIFICATE-----\nAAAA\n-----END CERTIFICATE-----\n", "badchain.crt", 0, 0, 0 } };
#define NW 11
SCEN(certificates, B({0,0}), B({0,0}), 9000, 0, F) {
	kmc_explore(0); W[4].mem = pem_chain; W[5].mem = pem_both; W[6].mem = pem_both_chain; int file = kmc_choose(3), c = kmc_choose(NW + 2), k = kmc_choose(NW), ca = kmc_choose(4), twice = kmc_choose(2); const char *caf = ca == 1 ? path("a.crt") : ca == 2 ? path("missing") : NULL, *cap = ca == 3 ? path("cas") : NULL;
	const char *cs = c == NW ? NULL : c > NW ? "" : file == 0 ? W[c].mem : path(W[c].file), *ks = file == 0 ? W[k].mem : path(W[k].file); const what *cw = c >= NW ? &W[k] : &W[c]; bool want = cw->cert && W[k].key == cw->cert && ca != 2; if (c == 10 && file == 1 && W[k].key == 1) want = want; 
	for (int n = 0; n <= twice; n++) {
		SSL_CTX *x = file == 1 ? kgl_ssl_ctx_new_server(cs, ks, cap, caf, NULL) : kgl_ssl_ctx_new_server2(rs(cs), rs(ks), cap, caf, NULL); CHECK((x != NULL) == want, "certificate %d, key %d, authority %d: %s", c, k, ca, x ? "accepted" : "refused");
		if (x) { SSL_CTX *p = raw_ctx(0, TLS1_2_VERSION, TLS1_3_VERSION); int ok = shake(x, p, 0, 0); CHECK(ok == (ca == 0), "a client without a certificate was %s", ok ? "accepted" : "refused"); STACK_OF(X509) *ch = SSL_get_peer_cert_chain(Cs); CHECK(ch && sk_X509_num(ch) == 1 + cw->chain, "%d certificates sent", ch ? sk_X509_num(ch) : 0); char nm[64]; X509_NAME_get_text_by_NID(X509_get_subject_name(sk_X509_value(ch, 0)), NID_commonName, nm, sizeof nm); CHECK(nm[0] == 'a' + cw->cert - 1, "certificate of %s", nm); unshake(); SSL_CTX_free(p); SSL_CTX_free(x); }
		all_freed();
	}
	kmc_end();
}
/* the rest of the chain, part by part: certificates in their order; a damaged one refuses the whole; what is no certificate is passed over */
SCEN(chains, B({0,0}), B({0,0}), 9000, 0, F) {
	kmc_explore(0); static char text[20000], dam[3000], cut[3000], bad64[3000]; strcpy(dam, pem_cb + 5); dam[strlen(dam) / 2] ^= 3; { char *q = strstr(dam, "CERTIFICATE-----\nM"); CHECK(q, "certificate"); strcpy(dam, pem_cb + 5); q = strstr(dam, "CERTIFICATE-----\nM"); q[strlen("CERTIFICATE-----\n")] = 'A'; } strcpy(cut, pem_cb + 5); *strstr(cut, "-----END") = 0; strcpy(bad64, pem_cb + 5); bad64[strlen(bad64) / 2] = '!';
	const char *part[] = { "", pem_ca + 5, pem_cb + 5, pem_ka + 5, "some text\n", dam, bad64, cut }; static const char sub[] = " ab     "; int n = kmc_choose(4), how = kmc_choose(4), refused = 0; char want[8] = ""; strcpy(text, "data:"); strcat(text, pem_ca + 5);
	for (int i = 0; i < n; i++) { int k = kmc_choose(i == n - 1 ? 8 : 7); strcat(text, part[k]); if (k >= 5) refused = 1; if (sub[k] != ' ') { char t[2] = { sub[k], 0 }; strcat(want, t); } }
	SSL_CTX *x = NULL; char fn[40]; if (how) { snprintf(fn, sizeof fn, "chain%d.tmp", (int)getpid()); put(fn, text + 5, 0, 0); }
	if (how == 0) x = kgl_ssl_ctx_new_server2(rs(text), rs(pem_ka), NULL, NULL, NULL); else if (how == 1) x = kgl_ssl_ctx_new_server(path(fn), path("a.key"), NULL, NULL, NULL); else { x = kgl_ssl_ctx_new_server2(rs(how == 3 ? pem_chain : pem_cb), rs(how == 3 ? pem_ka : pem_kb), NULL, NULL, NULL); CHECK(x, "context"); bool r = kgl_ssl_ctx_load_cert_key(x, path(fn), path("a.key")); CHECK(r == !refused, "chain of %d: %s", n, r ? "accepted" : "refused"); if (!r) { SSL_CTX_free(x); x = NULL; } }
	if (how) unlink(path(fn)); CHECK((x != NULL) == !refused, "chain of %d: %s", n, x ? "accepted" : "refused");
	if (x) { SSL_CTX *p = raw_ctx(0, TLS1_2_VERSION, TLS1_3_VERSION); CHECK(shake(x, p, 0, 0), "handshake"); STACK_OF(X509) *ch = SSL_get_peer_cert_chain(Cs); CHECK(ch && sk_X509_num(ch) == 1 + (int)strlen(want), "%d certificates sent, %d given", ch ? sk_X509_num(ch) : 0, 1 + (int)strlen(want)); for (int i = 0; want[i]; i++) { char nm[64]; X509_NAME_get_text_by_NID(X509_get_subject_name(sk_X509_value(ch, i + 1)), NID_commonName, nm, sizeof nm); CHECK(nm[0] == want[i], "chain certificate %d is of %s", i, nm); } unshake(); SSL_CTX_free(p); SSL_CTX_free(x); }
	all_freed(); kmc_end();
}
/* long chains */
SCEN(crowd, B({0,0}), B({0,0}), 9000, 0, F) {
	kmc_explore(0); static char text[60000]; static const int N[] = { 7, 8, 9, 10, 15, 16, 17, 20 }; int n = N[kmc_choose(8)], how = kmc_choose(2); strcpy(text, "data:"); strcat(text, pem_ca + 5); for (int i = 0; i < n; i++) strcat(text, (i % 3 ? pem_ca : pem_cb) + 5);
	char fn[40]; snprintf(fn, sizeof fn, "crowd%d.tmp", (int)getpid()); if (how) put(fn, text + 5, 0, 0); SSL_CTX *x = how ? kgl_ssl_ctx_new_server(path(fn), path("a.key"), NULL, NULL, NULL) : kgl_ssl_ctx_new_server2(rs(text), rs(pem_ka), NULL, NULL, NULL); if (how) unlink(path(fn)); CHECK(x, "chain of %d refused", n);
	SSL_CTX *p = raw_ctx(0, TLS1_2_VERSION, TLS1_3_VERSION); CHECK(shake(x, p, 0, 0), "handshake"); STACK_OF(X509) *ch = SSL_get_peer_cert_chain(Cs); CHECK(ch && sk_X509_num(ch) == 1 + n, "%d certificates sent, %d given", ch ? sk_X509_num(ch) : 0, 1 + n); for (int i = 0; i < n; i++) { char nm[64]; X509_NAME_get_text_by_NID(X509_get_subject_name(sk_X509_value(ch, i + 1)), NID_commonName, nm, sizeof nm); CHECK(nm[0] == (i % 3 ? 'a' : 'b'), "chain certificate %d is of %s", i, nm); } unshake(); SSL_CTX_free(p); SSL_CTX_free(x); all_freed(); kmc_end();
}
/* a context in use gets another certificate: new connections are given that one, the old connections stay */
SCEN(replaced, B({0,0}), B({0,0}), 9000, 0, F) {
	kmc_explore(0); int first = kmc_choose(2), c = kmc_choose(NW), k = kmc_choose(NW), how = kmc_choose(2); SSL_CTX *x = how ? kgl_ssl_ctx_new_server(path(first ? "bothchain" : "a.crt"), path("a.key"), NULL, NULL, NULL) : kgl_ssl_ctx_new_server2(rs(first ? pem_both_chain : pem_ca), rs(pem_ka), NULL, NULL, NULL); CHECK(x, "context"); bool want = W[c].cert && W[k].key == W[c].cert;
	SSL_CTX *p = raw_ctx(0, TLS1_2_VERSION, TLS1_3_VERSION); CHECK(shake(x, p, 0, 0), "handshake"); SSL *s1 = Ss, *c1 = Cs; CHECK(sk_X509_num(SSL_get_peer_cert_chain(c1)) == 1 + first, "chain"); bool got = kgl_ssl_ctx_load_cert_key(x, kmc_choose(2) ? path(W[c].file) : c == k ? "" : path(W[c].file), path(W[k].file)); CHECK(got == want, "certificate %d, key %d: %s", c, k, got ? "accepted" : "refused");
	if (got) { CHECK(shake(x, p, 0, 0), "handshake"); STACK_OF(X509) *ch = SSL_get_peer_cert_chain(Cs); CHECK(ch && sk_X509_num(ch) == 1 + W[c].chain, "%d certificates sent", ch ? sk_X509_num(ch) : 0); char nm[64]; X509_NAME_get_text_by_NID(X509_get_subject_name(sk_X509_value(ch, 0)), NID_commonName, nm, sizeof nm); CHECK(nm[0] == 'a' + W[c].cert - 1, "certificate of %s", nm); unshake(); }
	char t[4]; CHECK(SSL_write(s1, "z", 1) == 1 && SSL_read(c1, t, 4) == 1 && t[0] == 'z', "the old connection broke"); SSL_free(s1); SSL_free(c1); SSL_CTX_free(p); SSL_CTX_free(x); all_freed(); kmc_end();
}
/* ---- who is believed */
SCEN(authorities, B({0,0}), B({0,0}), 9000, 0, F) {
	kmc_explore(0); int ca = kmc_choose(4), peer = kmc_choose(3), v = kmc_choose(2) ? TLS1_3_VERSION : TLS1_2_VERSION, server = kmc_choose(2); const char *caf = ca == 1 ? path("a.crt") : ca == 3 ? path("b.crt") : NULL, *cap = ca == 2 ? path("cas") : NULL; SSL_CTX *x, *p; int trust = ca == 0 ? 0 : ca == 3 ? 2 : 1;
	if (server) { x = kgl_ssl_ctx_new_server2(rs(pem_cb), rs(pem_kb), cap, caf, NULL); p = raw_ctx(0, v, v); if (peer) { SSL_CTX_use_certificate_file(p, path(peer == 1 ? "a.crt" : "b.crt"), SSL_FILETYPE_PEM); SSL_CTX_use_PrivateKey_file(p, path(peer == 1 ? "a.key" : "b.key"), SSL_FILETYPE_PEM); } }
	else { if (!peer) { kmc_end(); } x = kgl_ssl_ctx_new_client(cap, caf, NULL); p = SSL_CTX_new(TLS_server_method()); SSL_CTX_set_min_proto_version(p, v); SSL_CTX_set_max_proto_version(p, v); SSL_CTX_use_certificate_file(p, path(peer == 1 ? "a.crt" : "b.crt"), SSL_FILETYPE_PEM); SSL_CTX_use_PrivateKey_file(p, path(peer == 1 ? "a.key" : "b.key"), SSL_FILETYPE_PEM); }
	CHECK(x, "context"); X509_VERIFY_PARAM_set_time(SSL_CTX_get0_param(x), 1800000000); int ok = server ? shake(x, p, 0, 0) : shake(p, x, 0, 0); CHECK(ok == (!trust || peer == trust), "authority %d: peer %d %s", ca, peer, ok ? "accepted" : "refused"); unshake(); SSL_CTX_free(x); SSL_CTX_free(p); all_freed(); kmc_end();
}
SCEN(no_authority, B({0,0}), B({0,0}), 9000, 0, F) { kmc_explore(0); int w = kmc_choose(3); SSL_CTX *x = kgl_ssl_ctx_new_client(NULL, path(w == 0 ? "missing" : w == 1 ? "bad" : "empty"), NULL); CHECK(!x, "a client context without its authority"); all_freed(); kmc_end(); }
/* ---- ciphers and application protocols */
SCEN(ciphers, B({0,0}), B({0,0}), 9000, 0, F) {
	static const char *CI[] = { "ECDHE-RSA-AES128-GCM-SHA256", "ECDHE-RSA-AES256-GCM-SHA384", "ECDHE-RSA-CHACHA20-POLY1305", "AES128-SHA256" }; kmc_explore(0); int m = kmc_choose(16), pm = kmc_choose(16), rev = kmc_choose(2), bad = kmc_choose(2), server = kmc_choose(2); if (!m || !pm) kmc_end(); char l[300] = "", q[300] = ""; int want = -1;
	for (int j = 0; j < 4; j++) { int i = rev ? 3 - j : j; if (m >> i & 1) { if (*l) strcat(l, ":"); strcat(l, CI[i]); if (want < 0 && (pm >> i & 1)) want = i; } if (pm >> j & 1) { if (*q) strcat(q, ":"); strcat(q, CI[j]); } }
	SSL_CTX *x = server ? kgl_ssl_ctx_new_server2(rs(pem_ca), rs(pem_ka), NULL, NULL, NULL) : kgl_ssl_ctx_new_client(NULL, NULL, NULL), *p = raw_ctx(!server, TLS1_2_VERSION, TLS1_2_VERSION); CHECK(kgl_ssl_ctx_set_cipher_list(x, l), "cipher list"); if (bad) CHECK(!kgl_ssl_ctx_set_cipher_list(x, "NO-SUCH-CIPHER"), "a cipher list of nothing"); SSL_CTX_set_cipher_list(p, q);
	int ok = server ? shake(x, p, 0, 0) : shake(p, x, 0, 0); if (!bad) { CHECK(ok == (want >= 0), "ciphers %s and %s: %d", l, q, ok); if (ok && server) CHECK(!strcmp(SSL_get_cipher_name(Ss), CI[want]), "ciphers %s and %s: %s", l, q, SSL_get_cipher_name(Ss)); } unshake(); SSL_CTX_free(x); SSL_CTX_free(p); all_freed(); kmc_end();
}
static int pick(SSL *, const unsigned char **o, unsigned char *ol, const unsigned char *in, unsigned n, void *a) { const char *w = (const char *)a; for (unsigned i = 0; i < n; i += in[i] + 1) if (in[i] == strlen(w) && !memcmp(in + i + 1, w, in[i])) { *o = in + i + 1; *ol = in[i]; return SSL_TLSEXT_ERR_OK; } return SSL_TLSEXT_ERR_NOACK; }
SCEN(protocols, B({0,0}), B({0,0}), 9000, 0, F) {
	static const char *OFF[] = { NULL, "\x02h2", "\x08http/1.1", "\x08http/1.1\x02h2", "\x03xyz", "\x03xyz\x08http/1.1" }, *WANT[] = { "h2", "http/1.1", "xyz" }; static int one = 1, two = 2; kmc_explore(0); int v = kmc_choose(2) ? TLS1_3_VERSION : TLS1_2_VERSION, server = kmc_choose(2), data = kmc_choose(3), o = kmc_choose(server ? 6 : 3); void *d = data == 0 ? NULL : data == 1 ? &one : &two; SSL_CTX *x, *p; const char *want = ""; int ok;
	if (server) { x = kgl_ssl_ctx_new_server2(rs(pem_ca), rs(pem_ka), NULL, NULL, d); p = raw_ctx(0, v, v); ok = shake(x, p, OFF[o], 0); if (o && data) { if (strstr(OFF[o], "h2")) want = "h2"; else if (data == 2 && strstr(OFF[o], "http/1.1")) want = "http/1.1"; } }
	else { x = kgl_ssl_ctx_new_client(NULL, NULL, d); p = raw_ctx(1, v, v); SSL_CTX_set_alpn_select_cb(p, pick, (void *)WANT[o]); ok = shake(p, x, 0, 0); if (data && (o == 0 || (o == 1 && data == 2))) want = WANT[o]; }
	CHECK(ok, "handshake"); for (int e = 0; e < 2; e++) { const unsigned char *g = NULL; unsigned n = 99; kgl_ssl_get_next_proto_negotiated(e ? Ss : Cs, &g, &n); CHECK(n == strlen(want) && !memcmp(n ? (const char *)g : "", want, n), "protocol %.*s instead of \"%s\"", (int)n, n ? (const char *)g : "", want); } CHECK(SSL_CTX_get_ex_data(x, kangle_ssl_ctx_index) == d, "data of the context"); unshake(); SSL_CTX_free(x); SSL_CTX_free(p); all_freed(); kmc_end();
}
/* ---- closing: one side after the other, whatever is still unread */
SCEN(closing, B({0,0}), B({0,0}), 9000, 0, F) {
	kmc_explore(0); int v = kmc_choose(2) ? TLS1_3_VERSION : TLS1_2_VERSION, unread = kmc_choose(2), first = kmc_choose(2); SSL_CTX *x = kgl_ssl_ctx_new_server2(rs(pem_ca), rs(pem_ka), NULL, NULL, NULL), *p = kgl_ssl_ctx_new_client(NULL, NULL, NULL); SSL_CTX_set_min_proto_version(p, v); SSL_CTX_set_max_proto_version(p, v); CHECK(shake(x, p, 0, 0), "handshake"); SSL *a = first ? Ss : Cs, *b = first ? Cs : Ss; char t[8]; if (unread) CHECK(SSL_write(b, "yy", 2) == 2, "write");
	kssl_status s = kgl_ssl_shutdown(a); CHECK(s != ret_want_read && s != ret_want_write && s != ret_sni_resolve, "closing first: %d", s); CHECK(SSL_get_shutdown(a) & SSL_SENT_SHUTDOWN, "no alert"); CHECK(SSL_read(b, t, 8) <= 0 && (SSL_get_shutdown(b) & SSL_RECEIVED_SHUTDOWN), "the alert did not arrive"); s = kgl_ssl_shutdown(b); CHECK(s == ret_ok, "closing second: %d", s); unshake(); SSL_CTX_free(x); SSL_CTX_free(p); all_freed(); kmc_end();
}
/* ---- counted contexts: freed with the last reference, by whichever thread drops it */
static kgl_ssl_ctx *R; static void *user(void *a) { CHECK(kgl_get_ssl_ctx(R) != NULL, "context"); kgl_add_ref_ssl_ctx(R); SSL *s = SSL_new(kgl_get_ssl_ctx(R)); kgl_release_ssl_ctx(R); if (a) SSL_free(s); kgl_release_ssl_ctx(R); if (!a) SSL_free(s); rt_done(); return NULL; }
SCEN(counted, B({3,0}), B({5,0}), 5000, 0, KMC_F_FORK) { kmc_explore(0); CHECK(!kgl_get_ssl_ctx(NULL), "null"); size_t l = kmc_live_allocs(); R = kgl_new_ssl_ctx(kgl_ssl_ctx_new_client(NULL, NULL, NULL)); for (int i = 0; i < 2; i++) kgl_add_ref_ssl_ctx(R); kmc_explore(1); for (long i = 0; i < 3; i++) { pthread_t t; pthread_create(&t, NULL, user, (void *)i); pthread_detach(t); } rt_wait(3); kmc_explore(0); all_freed(); R = kgl_new_ssl_ctx(NULL); kgl_release_ssl_ctx(R); (void)l; kmc_end(); }
