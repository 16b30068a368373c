/* C26: ordered trees, intrusive lists and shared strings against plain models */
#include "common.h"
#include "kstring.h"
static char hist[256]; static int nh;
/* ---- trees: every tree reachable by inserting and removing keys */
static krb_tree *T; static int key[32]; static krb_node *node_of[32];
static int cmp(const void *a, const void *b) { int x = *(const int *)a, y = *(const int *)b; return x < y ? -7 : x > y; }
static int height(krb_node *n) { if (!n) return 0; int l = height(n->rb_left), r = height(n->rb_right); return 1 + (l > r ? l : r); }
static uint64_t shape(krb_node *n, uint64_t h) { int k = n ? *(int *)n->data * 2 + (int)(n->rb_parent_color & 1) : -1; h = kmc_hash(&k, sizeof k, h); if (n) { h = shape(n->rb_left, h); h = shape(n->rb_right, h); } return h; }
static void tree_check(int nk) {
	int cnt = 0, first = -1, last = -1; for (int i = 0; i < nk; i++) if (node_of[i]) { cnt++; if (first < 0) first = i; last = i; }
	krb_node *n = rb_first(&T->root); CHECK(n == (first < 0 ? NULL : node_of[first]), "first (%s)", hist); CHECK(rb_last(&T->root) == (last < 0 ? NULL : node_of[last]), "last (%s)", hist); CHECK(rbtree_is_empty(T) == (cnt == 0), "empty (%s)", hist);
	for (int i = 0; i < nk; i++) if (node_of[i]) { CHECK(n == node_of[i], "key %d is not next (%s)", i, hist); CHECK(*(int *)n->data == i, "key"); n = rb_next(n); } CHECK(!n, "more than the keys (%s)", hist);
	n = rb_last(&T->root); for (int i = nk - 1; i >= 0; i--) if (node_of[i]) { CHECK(n == node_of[i], "key %d is not before (%s)", i, hist); n = rb_prev(n); } CHECK(!n, "more than the keys backwards (%s)", hist);
	int lg = 0; while ((1 << lg) < cnt + 1) lg++; CHECK(height(T->root.rb_node) <= 2 * lg, "height %d with %d keys (%s)", height(T->root.rb_node), cnt, hist);
	for (int i = 0; i < nk; i++) { krb_node *f = rbtree_find(T, &key[i], cmp); CHECK(f == node_of[i], "found %d (%s)", i, hist); int r = 99; krb_node *f2 = rbtree_find2(T, &key[i], cmp, &r); if (node_of[i]) CHECK(f2 == f && r == 0, "find2 %d (%s)", i, hist); else if (!cnt) CHECK(!f2, "found in an empty tree"); else { CHECK(f2 && r, "find2 of a missing %d (%s)", i, hist); int j = *(int *)f2->data; CHECK(r < 0 ? i < j : i > j, "find2 result (%s)", hist); CHECK(r < 0 ? !f2->rb_left : !f2->rb_right, "find2 did not end where the key belongs (%s)", hist); }
		int want = -1; for (int j = i; j >= 0; j--) if (node_of[j]) { want = j; break; } if (want < 0) want = last; CHECK(rbtree_find_cover(T, &key[i], cmp) == (want < 0 ? NULL : node_of[want]), "cover of %d (%s)", i, hist); }
}
static krb_node *my_new() { return (krb_node *)malloc(sizeof(krb_node)); }
static int freed; static void my_free(krb_node *n) { freed++; free(n); }
static void tree_insert(int k, int two) { int nf = 77; krb_node *n = two ? rbtree_insert2(T, &key[k], &nf, cmp, my_new) : rbtree_insert(T, &key[k], &nf, cmp); CHECK(n, "insert"); if (node_of[k]) CHECK(nf == 0 && n == node_of[k], "inserted %d twice (%s)", k, hist); else { CHECK(nf == 1, "not new (%s)", hist); n->data = &key[k]; node_of[k] = n; } }
static void tree_remove(int k, int two) { krb_node *n = node_of[k]; node_of[k] = NULL; if (two) { freed = 0; rbtree_remove2(T, n, my_free); CHECK(freed == 1, "freed"); } else rbtree_remove(T, n); }
static void trees(int nk, int depth) {
	kmc_explore(0); size_t live = kmc_live_allocs(); T = rbtree_create(); memset(node_of, 0, sizeof node_of); nh = 0; hist[0] = 0; for (int i = 0; i < nk; i++) key[i] = i; tree_check(nk);
	for (int i = 0; i < depth; i++) { int k = kmc_choose(nk), two = (i + k) & 1; hist[nh++] = (node_of[k] ? 'a' : 'A') + k; hist[nh] = 0; if (node_of[k]) { tree_insert(k, two); tree_remove(k, two); } else tree_insert(k, two); tree_check(nk); int left = depth - i; kmc_seen(shape(T->root.rb_node, kmc_hash(&left, sizeof left, 5))); }
	for (int k = 0; k < nk; k++) if (node_of[k]) { tree_remove(k, 0); tree_check(nk); }
	rbtree_destroy(T); CHECK(kmc_live_allocs() == live, "leak"); kmc_end();
}
SCEN(trees6, B({0,0}), B({0,0}), 1000, 0, KMC_F_SEQ) { trees(6, 16); }
SCEN(trees8, B({0,0}), B({0,0}), 1000, 0, KMC_F_SEQ) { trees(8, 24); }
SCEN(trees10, B({0,0}), B({0,0}), 1000, 0, KMC_F_SEQ) { trees(10, 16); }
/* larger trees: 2^n-ish orders of insertion, every single and double removal */
SCEN(trees_large, B({0,0}), B({0,0}), 1000, 0, KMC_F_SEQ) {
	kmc_explore(0); size_t live = kmc_live_allocs(); T = rbtree_create(); memset(node_of, 0, sizeof node_of); int nk = 8 + kmc_choose(24), mul = 1 + 2 * kmc_choose(8), off = kmc_choose(3); snprintf(hist, sizeof hist, "%d %d %d", nk, mul, off); for (int i = 0; i < 32; i++) key[i] = i;
	for (int i = 0; i < 32; i++) { int k = (i * mul + off) % 32; if (k < nk) tree_insert(k, 0); } tree_check(nk); int a = kmc_choose(nk), b = kmc_choose(nk); tree_remove(a, 0); tree_check(nk); if (a != b) { tree_remove(b, 1); tree_check(nk); } tree_insert(a, 0); tree_check(nk);
	for (int i = 0; i < nk; i++) { int k = (i * mul + off) % 32; if (k < nk && node_of[k]) { tree_remove(k, 0); tree_check(nk); } } for (int k = 0; k < nk; k++) if (node_of[k]) tree_remove(k, 0); tree_check(nk);
	rbtree_destroy(T); CHECK(kmc_live_allocs() == live, "leak"); kmc_end();
}
/* walking over a tree with any mix of keeping, removing and stopping */
static int visited, plan[16], seen_k[16];
static iterator_ret walk(void *d, void *a) { CHECK(a == (void *)77, "argument"); int k = *(int *)d; seen_k[visited] = k; return (iterator_ret)plan[visited++]; }
SCEN(walks, B({0,0}), B({0,0}), 1000, 0, KMC_F_SEQ) {
	kmc_explore(0); T = rbtree_create(); memset(node_of, 0, sizeof node_of); int nk = 6, mask = kmc_choose(64); for (int i = 0; i < nk; i++) { key[i] = i; if (mask >> i & 1) tree_insert(i, 0); }
	int n = __builtin_popcount(mask), stop = 0, ord[8], m = 0; for (int i = 0; i < nk; i++) if (mask >> i & 1) ord[m++] = i; visited = 0;
	for (int i = 0; i < n && !stop; i++) { plan[i] = kmc_choose(4); stop = plan[i] == iterator_break || plan[i] == iterator_remove_break; m = i + 1; } 
	rbtree_iterator(T, walk, (void *)77); CHECK(visited == (n ? m : 0), "visited %d of %d", visited, m); for (int i = 0; i < visited; i++) { CHECK(seen_k[i] == ord[i], "order"); if (plan[i] == iterator_remove_continue || plan[i] == iterator_remove_break) node_of[ord[i]] = NULL; } tree_check(nk); kmc_end();
}
/* the comparisons offered for trees order their keys */
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
SCEN(comparisons, B({0,0}), B({0,0}), 1000, 0, KMC_F_SEQ) {
	kmc_explore(0); static const int V[] = { -2147483647 - 1, -2147483647, -1000, -1, 0, 1, 2, 1000, 2147483646, 2147483647 }; int i = kmc_choose(10), j = kmc_choose(10); int a = V[i], b = V[j]; CHECK(sgn(rbtree_int_cmp(&a, &b)) == sgn(i - j), "comparing %d and %d", a, b);
	static const char *S[] = { "", "A", "Ab", "B", "a", "aB", "ab", "b", "\x80", "\xff" }; const char *s = S[i], *t = S[j]; CHECK(sgn(rbtree_string_cmp(&s, &t)) == sgn(i - j), "comparing %s and %s", s, t); CHECK(sgn(rbtree_file_cmp(&s, &t)) == sgn(i - j), "comparing files %s and %s", s, t);
	static const int CI[] = { 0, 1, 2, 3, 1, 2, 2, 3, 4, 5 }; CHECK(sgn(rbtree_string_case_cmp(&s, &t)) == sgn(CI[i] - CI[j]), "comparing %s and %s without case", s, t); kmc_end();
}
/* ---- lists */
struct item { int id; kgl_list l; kgl_forward_list f; };
#define ITEM(p, m) ((item *)kgl_list_data(p, item, m))
#define NI 5
static void lists(int depth) {
	kmc_explore(0); item it[NI]; kgl_list L; kgl_forward_list F; klist_init(&L); kforward_list_init(&F); int m[NI], n = 0, fm[NI], fn = 0; for (int i = 0; i < NI; i++) it[i].id = i; nh = 0;
	for (int d = 0; d < depth; d++) {
		int o = kmc_choose(3), k = kmc_choose(NI), in = -1, fin = -1; for (int i = 0; i < n; i++) if (m[i] == k) in = i; for (int i = 0; i < fn; i++) if (fm[i] == k) fin = i;
		if (in >= 0) { if (o == 2) kmc_end(); klist_remove(&it[k].l); for (int i = in; i < n - 1; i++) m[i] = m[i + 1]; n--; }
		else if (o == 0) { klist_append(&L, &it[k].l); m[n++] = k; } else if (o == 1) { kgl_list *f = klist_head(&L); kgl_list *x = &it[k].l; klist_insert(f, x); for (int i = n; i > 0; i--) m[i] = m[i - 1]; m[0] = k; n++; } else { int at = n ? n / 2 : 0; kgl_list *p = n ? &it[m[at]].l : &L; klist_insert_tail(p, &it[k].l); for (int i = n; i > at; i--) m[i] = m[i - 1]; m[at] = k; n++; }
		bool r = fin >= 0; if (r) { CHECK(kfoward_list_remove(&F, &it[k].f), "remove"); for (int i = fin; i < fn - 1; i++) fm[i] = fm[i + 1]; fn--; } else { CHECK(!kfoward_list_remove(&F, &it[k].f), "removed what is not in the list"); kforward_list_append(&F, &it[k].f); for (int i = fn; i > 0; i--) fm[i] = fm[i - 1]; fm[0] = k; fn++; }
		int i = 0; kgl_list *p; klist_foreach(p, &L) { CHECK(i < n && ITEM(p, l)->id == m[i], "item %d", i); i++; } CHECK(i == n, "items"); klist_rforeach(p, &L) { i--; CHECK(i >= 0 && ITEM(p, l)->id == m[i], "item %d backwards", i); } CHECK(i == 0, "items backwards"); CHECK(klist_empty(&L) == (n == 0), "empty"); CHECK(kforward_list_empty(&F) == (fn == 0), "empty"); int c = 0; for (kgl_forward_list *q = F.next; q != &F; q = q->next) { CHECK(c < fn && ITEM(q, f)->id == fm[c], "item %d of the forward list", c); c++; } CHECK(c == fn, "forward items");
		if (n) { p = klist_head(&L); CHECK(ITEM(p, l)->id == m[0], "head"); p = klist_end(&L); CHECK(ITEM(p, l)->id == m[n - 1], "end"); }
	}
	kmc_end();
}
SCEN(lists4, B({0,0}), B({0,0}), 1000, 0, KMC_F_SEQ) { lists(4); }
SCEN(lists5, B({0,0}), B({0,0}), 1000, 0, KMC_F_SEQ) { lists(5); }
/* ---- shared strings: freed with the last reference, by whichever thread drops it */
static kgl_ref_str_t *RS;
static void *rs_user(void *) { kgl_ref_str_t *a = kstring_refs(RS); CHECK(a->len == 5 && !memcmp(a->data, "hello", 5), "string"); kstring_release(RS); CHECK(!strcmp(a->data, "hello"), "string"); kstring_release(a); rt_done(); return NULL; }
SCEN(ref_strings, B({3,0}), B({5,0}), 1000, 0, 0) { kmc_explore(0); size_t live = kmc_live_allocs(); int how = kmc_choose(2); RS = how ? kstring_from2("hellooo", 5) : kstring_from("hello"); CHECK(kstring_get_ref(RS) == 1, "references"); for (int i = 0; i < 2; i++) kstring_refs(RS); CHECK(kstring_get_ref(RS) == 3, "references"); kmc_explore(1); for (int i = 0; i < 3; i++) { pthread_t t; pthread_create(&t, NULL, rs_user, NULL); pthread_detach(t); } rt_wait(3); kmc_explore(0); CHECK(kmc_live_allocs() == live, "the string was %s", kmc_live_allocs() > live ? "kept" : "freed too often"); CHECK(!kstring_refs(NULL) && !kstring_from(NULL), "null"); kstring_release(NULL); kmc_end(); }
/* many keys and many references at once */
#define CROWD 1000
static int cw_key[CROWD]; static krb_node *cw_node[CROWD];
static void cw_check(int live) { int n = 0, lg = 0; krb_node *x = rb_first(&T->root); for (int i = 0; i < CROWD; i++) { krb_node *f = rbtree_find(T, &cw_key[i], cmp); CHECK(f == cw_node[i], "found key %d of %d wrongly", i, CROWD); if (!cw_node[i]) continue; CHECK(x == cw_node[i], "key %d is not next", i); x = rb_next(x); n++; } CHECK(!x && n == live, "%d keys, expected %d", n, live); while ((1 << lg) < n + 1) lg++; CHECK(height(T->root.rb_node) <= 2 * lg, "height %d with %d keys", height(T->root.rb_node), n); }
SCEN(crowd, B({0,0}), B({0,0}), 1000, 0, KMC_F_SEQ) {
	kmc_explore(0); size_t live = kmc_live_allocs(); T = rbtree_create(); int how = kmc_choose(4), rem = kmc_choose(4); for (int i = 0; i < CROWD; i++) { cw_key[i] = i; cw_node[i] = NULL; }
	for (int i = 0; i < CROWD; i++) { int k = how == 0 ? i : how == 1 ? CROWD - 1 - i : how == 2 ? (i & 1 ? CROWD - 1 - i / 2 : i / 2) : i * 617 % CROWD, nf = 0; cw_node[k] = rbtree_insert(T, &cw_key[k], &nf, cmp); CHECK(cw_node[k] && nf, "insert %d", k); cw_node[k]->data = &cw_key[k]; if (i == CROWD / 2) cw_check(i + 1); } cw_check(CROWD);
	for (int i = 0; i < CROWD; i++) { int k = rem == 0 ? i : rem == 1 ? CROWD - 1 - i : rem == 2 ? (i & 1 ? CROWD / 2 - 1 - i / 2 : CROWD / 2 + i / 2) : i * 389 % CROWD; krb_node *n = cw_node[k]; cw_node[k] = NULL; rbtree_remove(T, n); if (i % 100 == 37) cw_check(CROWD - 1 - i); }
	CHECK(rbtree_is_empty(T), "not empty"); rbtree_destroy(T); CHECK(kmc_live_allocs() == live, "leak"); kmc_end();
}
SCEN(crowd_refs, B({0,0}), B({0,0}), 1000, 0, KMC_F_SEQ) { kmc_explore(0); size_t live = kmc_live_allocs(); static const int N[] = { 127, 128, 255, 256, 32768, 65536, 70000 }; int n = N[kmc_choose(7)]; kgl_ref_str_t *r = kstring_from("x"); size_t held = kmc_live_allocs(); for (int i = 0; i < n; i++) kstring_refs(r); CHECK((int)kstring_get_ref(r) == n + 1, "%d references of %d", (int)kstring_get_ref(r), n + 1); for (int i = 0; i < n; i++) kstring_release(r); CHECK(kstring_get_ref(r) == 1 && kmc_live_allocs() == held, "string of %d references", n); kstring_release(r); CHECK(kmc_live_allocs() == live, "leak"); kmc_end(); }
