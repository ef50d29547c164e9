#!/usr/bin/env python3
"""Write refactored/*.diff: rewrites of /repo that keep the behaviour.  All checks
must stay quiet on each of them (tools/tryref.sh)."""
import re, subprocess, os, shutil, sys
W = "/tmp/rf.work"
OUT = "/verif/refactored"

class F:
    def __init__(s, n): s.n = n; s.p = W + "/maa/" + n; s.t = open(s.p).read()
    def func(s, name, new):
        """replace the definition of function name (with its leading type) by new"""
        m = [x for x in re.finditer(r"(?m)^[A-Za-z_][^\n;{}=#]*?\b%s ?\((?:[^;{}]*?)\)\s*\n?\{.*?^\}\n" % re.escape(name), s.t, re.S | re.M)]
        assert len(m) == 1, (s.n, name, len(m))
        s.t = s.t[:m[0].start()] + new.lstrip("\n") + s.t[m[0].end():]; return s
    def sub(s, a, b, n=1):
        assert s.t.count(a) == n, (s.n, a, s.t.count(a)); s.t = s.t.replace(a, b); return s
    def resub(s, a, b):
        s.t, k = re.subn(a, b, s.t, flags=re.S | re.M); assert k, (s.n, a); return s
    def cut(s, a, b, new):
        i = s.t.index(a); j = s.t.index(b, i); s.t = s.t[:i] + new.lstrip("\n") + s.t[j:]; return s
    def save(s): open(s.p, "w").write(s.t)

R = {}
def ref(f): R[f.__name__.replace("_", "-")] = f; return f

@ref
def stack_array():
    f = F("stack.c")
    f.cut("typedef struct data {", "/* \\doc |stk_create|", """
typedef struct stack {
	const void    **items;
	unsigned long count;
	unsigned long room;
} *stackType;

""")
    f.sub("	s->data    = NULL;\n", "	s->items   = NULL;\n	s->count   = 0;\n	s->room    = 0;\n")
    f.func("stk_destroy", """
void stk_destroy(stk_Stack stack)
{
	stackType s = (stackType)stack;

	if (s->items) xfree(s->items);
	xfree(s);
}
""")
    f.func("stk_push", """
void stk_push(stk_Stack stack, void *datum)
{
	stackType s = (stackType)stack;

	if (s->count == s->room) {
		unsigned long room = s->room ? 2 * s->room : 8;

		s->items = s->items ? xrealloc(s->items, room * sizeof *s->items)
			: xmalloc(room * sizeof *s->items);
		s->room  = room;
	}
	s->items[s->count++] = datum;
}
""")
    f.func("stk_pop", """
void *stk_pop(stk_Stack stack)
{
	stackType s = (stackType)stack;

	return s->count ? __UNCONST(s->items[--s->count]) : NULL;
}
""")
    f.func("stk_isempty", """
int stk_isempty(stk_Stack stack)
{
	return !((stackType)stack)->count;
}
""")
    f.func("stk_top", """
void *stk_top(stk_Stack stack)
{
	stackType s = (stackType)stack;

	if (!s->count) return NULL;
	return __UNCONST(s->items[s->count - 1]);
}
""")
    f.save()

@ref
def list_helpers():
    f = F("list.c")
    f.sub("long int lst_total_allocated(void)", """static dataType _lst_cell(const void *datum, dataType next)
{
	dataType d = mem_get_object(mem);

	d->datum = datum;
	d->next  = next;
	_lst_allocated += (long int)sizeof *d;
	return d;
}

static dataType _lst_nth(listType l, unsigned int n, const char *function)
{
	dataType     d    = l->head;
	unsigned int left = n - 1;

	while (left && d) {
		d = d->next;
		--left;
	}
	if (left || !d)
		err_internal(function, "Can't find element %u of %u", n, l->count);
	return d;
}

static unsigned int _lst_free_chain(dataType d)
{
	unsigned int count = 0;

	while (d) {
		dataType dead = d;

		d = d->next;
		mem_free_object(mem, dead);
		count++;
	}
	return count;
}

long int lst_total_allocated(void)""")
    f.func("lst_destroy", """
void lst_destroy(lst_List list)
{
	listType l = (listType)list;

	_lst_check(l, __func__);
	(void)_lst_free_chain(l->head);
	l->head = NULL;
	l->tail = NULL;
#if MAA_MAGIC
	l->magic = LST_MAGIC_FREED;
#endif
	xfree(l);
}
""")
    f.func("lst_append", """
void lst_append(lst_List list, const void *datum)
{
	listType l = (listType)list;
	dataType d;

	if (!l) return;
	_lst_check(l, __func__);
	d = _lst_cell(datum, NULL);
	*(l->tail ? &l->tail->next : &l->head) = d;
	l->tail = d;
	l->count += 1;
}
""")
    f.func("lst_push", """
void lst_push(lst_List list, const void *datum)
{
	listType l = (listType)list;

	_lst_check(l, __func__);
	l->head = _lst_cell(datum, l->head);
	if (l->count++ == 0) l->tail = l->head;
}
""")
    f.func("lst_pop", """
void *lst_pop(lst_List list)
{
	listType   l = (listType)list;
	dataType   d;
	const void *datum;

	_lst_check(l, __func__);
	if (!(d = l->head)) return NULL;
	datum = d->datum;
	if (!(l->head = d->next)) l->tail = NULL;
	l->count--;
	mem_free_object(mem, d);
	return __UNCONST(datum);
}
""")
    f.func("lst_nth_get", """
void *lst_nth_get(lst_List list, unsigned int n)
{
	listType l = (listType)list;

	_lst_check(l, __func__);
	if (!n || n > l->count) return NULL;
	return __UNCONST(_lst_nth(l, n, __func__)->datum);
}
""")
    f.func("lst_nth_set", """
void lst_nth_set(lst_List list, unsigned int n, const void *datum)
{
	listType l = (listType)list;

	_lst_check(l, __func__);
	if (n - 1 >= l->count)
		err_fatal(__func__, "Attempt to change element %u of %u elements",
				  n, l->count);
	_lst_nth(l, n, __func__)->datum = datum;
}
""")
    f.func("lst_nth_position", """
lst_Position lst_nth_position(lst_List list, unsigned int n)
{
	listType l = (listType)list;

	_lst_check(l, __func__);
	return n && n <= l->count ? _lst_nth(l, n, __func__) : NULL;
}
""")
    f.func("lst_truncate", """
void lst_truncate(lst_List list, unsigned int length)
{
	listType l = (listType)list;

	_lst_check(l, __func__);
	if (length < l->count)
		lst_truncate_position(list, length ? _lst_nth(l, length, __func__)
							  : NULL);
}
""")
    f.func("lst_truncate_position", """
void lst_truncate_position(lst_List list, lst_Position position)
{
	listType l = (listType)list;
	dataType last;
	dataType *link;
	dataType rest;

	_lst_check(l, __func__);
	last  = (dataType)position;
	link  = last ? &last->next : &l->head;
	rest  = *link;
	*link = NULL;
	l->tail = last;
	l->count -= _lst_free_chain(rest);
}
""")
    f.func("lst_iterate", """
static int _lst_call(const void *datum, void *arg)
{
	int (**f)(const void *) = (int (**)(const void *))arg;

	return (*f)(datum);
}

int lst_iterate(lst_List list, int (*iterator)(const void *datum))
{
	_lst_check((listType)list, __func__);
	return lst_iterate_arg(list, _lst_call, &iterator);
}
""")
    f.save()

@ref
def list_own_cells():
    f = F("list.c")
    f.sub("static mem_Object mem;\n", "")
    f.sub("	if (!mem) mem = mem_create_objects(sizeof(struct data));\n", "")
    f.sub("	if (mem) mem_destroy_objects(mem);\n	mem = NULL;\n", "	/* nothing is shared between lists */\n")
    f.resub(r"mem_free_object\(mem, (\w+)\)", r"xfree(\1)")
    f.sub("mem_get_object(mem)", "xmalloc(sizeof(struct data))", 2)
    f.save()

def table(fn, tt, what, key):
    f = F(fn)
    two = fn == "hash.c"
    f.resub(r"	t->buckets *= xmalloc\([a-z>-]* ?\*? ?[^;]*;", "	t->buckets    = xcalloc(prime, sizeof(*t->buckets));")
    f.resub(r"\n[ \t]*for \(i = 0; i < (?:t->)?prime; i\+\+\) t->buckets\[i\] = NULL;\n", "\n")
    f.resub(r"	%s +t;\n	unsigned long i;\n	unsigned long prime = prm_next_prime\(seed\);" % tt, "	%s       t;\n	unsigned long prime = prm_next_prime(seed);" % tt)
    pre = fn[:3] if two else "set"
    pre = "hsh" if two else "set"
    handle = "hsh_HashTable table" if two else "set_Set set"
    h = "table" if two else "set"
    f.func("_%s_insert" % pre, """
/* The link that points to the entry of |key|, or the NULL at the end of its
   chain. */
static bucketType *_%(p)s_link(%(tt)s t, unsigned long hash, const void *key)
{
	bucketType *link = t->buckets + hash %% t->prime;

	while (*link && t->compare((*link)->%(k)s, key)) link = &(*link)->next;
	return link;
}

static void _%(p)s_grow(%(tt)s t)
{
	unsigned long prime = prm_next_prime(t->prime * 3);
	bucketType    *new  = xcalloc(prime, sizeof(*new));
	unsigned long i;

	for (i = 0; i < t->prime; i++) {
		bucketType b = t->buckets[i];

		while (b) {
			bucketType    next = b->next;
			unsigned long h    = b->hash %% prime;

			b->next = new[h];
			new[h]  = b;
			b       = next;
		}
	}
	xfree(t->buckets);
	t->buckets = new;
	t->prime   = prime;
	++t->resizings;
}
""" % dict(p=pre, tt=tt, k=key))
    f.func("%s_insert" % pre, """
int %(p)s_insert(%(hd)s, const void *%(k)s%(dat)s)
{
	%(tt)s       t = (%(tt)s)%(h)s;
	unsigned long hash;
	bucketType    b;
	bucketType    *top;

	_%(p)s_check(t, __func__);
	hash = t->hash(%(k)s);
	if (t->readonly)
		err_internal(__func__, "Attempt to insert into readonly %(h)s");

	if (2 * t->entries > t->prime) _%(p)s_grow(t);

	if (*_%(p)s_link(t, hash, %(k)s)) return 1;

	b        = xmalloc(sizeof(*b));
	top      = &t->buckets[hash %% t->prime];
	b->%(k)s   = %(k)s;
	b->hash  = hash;
%(setd)s	b->next  = *top;
	*top     = b;
	t->entries++;
	return 0;
}
""" % dict(p=pre, tt=tt, k=key, h=h, hd=handle, dat=", const void *datum" if two else "", setd="	b->datum = datum;\n" if two else ""))
    f.func("%s_delete" % pre, """
int %(p)s_delete(%(hd)s, const void *%(k)s)
{
	%(tt)s     t = (%(tt)s)%(h)s;
	bucketType  *link;
	bucketType  dead;

	_%(p)s_check(t, __func__);
	link = _%(p)s_link(t, t->hash(%(k)s), %(k)s);
	if (t->readonly)
		err_internal(__func__, "Attempt to delete from readonly %(h)s");
	if (!(dead = *link)) return 1;
	*link = dead->next;
	xfree(dead);
	t->entries -= 1;
	return 0;
}
""" % dict(p=pre, tt=tt, k=key, h=h, hd=handle))
    f.func("hsh_retrieve" if two else "set_member", """
%(ret)s(%(hd)s, const void *%(k)s)
{
	%(tt)s       t = (%(tt)s)%(h)s;
	unsigned long hash;
	bucketType    *top, *link;
	bucketType    b;

	_%(p)s_check(t, __func__);
	hash = t->hash(%(k)s);
	top  = t->buckets + hash %% t->prime;
	link = _%(p)s_link(t, hash, %(k)s);
	b    = *link;
	t->retrievals++;
	if (!b) {
		t->misses++;
		return %(no)s;
	}
	if (link == top)
		t->hits++;
	else if (!t->readonly) {	/* Self organize */
		*link   = b->next;
		b->next = *top;
		*top    = b;
	}
	return %(yes)s;
}
""" % dict(p=pre, tt=tt, k=key, h=h, hd=handle, ret="const void *hsh_retrieve" if two else "int set_member", no="NULL" if two else "0", yes="b->datum" if two else "1"))
    # one loop for positions
    f.resub(r"	for \(i = 0; i < t->prime; i\+\+\) if \(t->buckets\[i\]\) \{\n\t*t->readonly = 1;\n\t*return t->buckets\[i\];\n\t*\}\n   ?\n?	?return NULL;|	for \(i = 0; i < t->prime; i\+\+\) if \(t->buckets\[i\]\) \{\n\t*t->readonly = 1;\n\t*return t->buckets\[i\];\n\t*\}\s*return NULL;",
            "	i = 0;\n	while (i < t->prime && !t->buckets[i]) i++;\n	if (i == t->prime) return NULL;\n	t->readonly = 1;\n	return t->buckets[i];")
    f.save()
    return f

@ref
def hash_links(): table("hash.c", "tableType", "table", "key")
@ref
def set_links(): table("set.c", "setType", "set", "elem")

@ref
def set_algebra():
    f = F("set.c")
    f.func("set_add", """
static void _set_compatible(setType t1, setType t2, const char *function)
{
	_set_check(t1, function);
	_set_check(t2, function);
	if (t1->hash != t2->hash)
		err_fatal(function, "Sets do not have identical hash functions");
	if (t1->compare != t2->compare)
		err_fatal(function,
				  "Sets do not have identical comparison functions");
}

/* Is |elem| in |t|?  Moves nothing. */
static int _set_has(setType t, const void *elem)
{
	bucketType *top = t->buckets + t->hash(elem) % t->prime;
	bucketType b    = *top;

	t->retrievals++;
	while (b && t->compare(b->elem, elem)) b = b->next;
	if (!b)             t->misses++;
	else if (b == *top) t->hits++;
	return b != NULL;
}

/* All elements of |t| in a vector of its own. */
static const void **_set_elements(setType t)
{
	const void    **v = xmalloc((t->entries + 1) * sizeof *v);
	unsigned long i, n = 0;
	bucketType    b;

	for (i = 0; i < t->prime; i++)
		for (b = t->buckets[i]; b; b = b->next) v[n++] = b->elem;
	v[n] = NULL;
	return v;
}

static set_Set _set_filter(setType t1, setType t2, int wanted)
{
	set_Set       set = set_create(t1->hash, t1->compare);
	unsigned long i;
	bucketType    b;

	for (i = 0; i < t1->prime; i++)
		for (b = t1->buckets[i]; b; b = b->next)
			if (_set_has(t2, b->elem) == wanted) set_insert(set, b->elem);
	return set;
}

set_Set set_add(set_Set set1, set_Set set2)
{
	const void    **v;
	unsigned long i, n;

	_set_compatible((setType)set1, (setType)set2, __func__);
	if (set1 == set2) return set1;
	n = ((setType)set2)->entries;
	v = _set_elements((setType)set2);
	for (i = 0; i < n; i++) set_insert(set1, v[i]);
	xfree(v);
	return set1;
}
""")
    f.func("set_del", """
set_Set set_del(set_Set set1, set_Set set2)
{
	const void    **v;
	unsigned long i, n;

	_set_compatible((setType)set1, (setType)set2, __func__);
	n = ((setType)set2)->entries;
	v = _set_elements((setType)set2);
	for (i = 0; i < n; i++) set_delete(set1, v[i]);
	xfree(v);
	return set1;
}
""")
    f.func("set_union", """
set_Set set_union(set_Set set1, set_Set set2)
{
	set_Set set;

	_set_compatible((setType)set1, (setType)set2, __func__);
	set = set_create(((setType)set1)->hash, ((setType)set1)->compare);
	set_add(set, set1);
	return set_add(set, set2);
}
""")
    for n, w in (("inter", 1), ("diff", 0)):
        f.func("set_" + n, """
set_Set set_%s(set_Set set1, set_Set set2)
{
	_set_compatible((setType)set1, (setType)set2, __func__);
	return _set_filter((setType)set1, (setType)set2, %d);
}
""" % (n, w))
    f.func("set_equal", """
int set_equal(set_Set set1, set_Set set2)
{
	setType       t1 = (setType)set1, t2 = (setType)set2;
	unsigned long i = 0;
	bucketType    b;
	int           same;

	_set_compatible(t1, t2, __func__);
	same = t1->entries == t2->entries;
	while (same && i < t1->prime)
		for (b = t1->buckets[i++]; b && same; b = b->next)
			same = _set_has(t2, b->elem);
	return same;
}
""")
    f.func("set_iterate", """
static int _set_call(const void *elem, void *arg)
{
	return (*(int (**)(const void *))arg)(elem);
}

int set_iterate(set_Set set,
				int (*iterator)(const void *elem))
{
	_set_check((setType)set, __func__);
	return set_iterate_arg(set, _set_call, &iterator);
}
""")
    f.func("set_iterate_arg", """
int set_iterate_arg(set_Set set,
					int (*iterator)(const void *elem, void *arg),
					void *arg)
{
	setType       t = (setType)set;
	unsigned long i;
	bucketType    b;
	int           saved;
	int           stop = 0;

	_set_check(t, __func__);
	saved       = t->readonly;
	t->readonly = 1;
	for (i = 0; !stop && i < t->prime; i++)
		for (b = t->buckets[i]; !stop && b; b = b->next)
			stop = iterator(b->elem, arg) != 0;
	t->readonly = saved;
	return stop;
}
""")
    f.save()

@ref
def sl_arrays():
    f = F("sl.c")
    f.sub("	while ((random() & 0x80) &&  level < _sl_MaxLevel) ++level;\n	return level;", """	for (;;) {
		if (!((random() >> 7) & 1)) break;
		if (level >= _sl_MaxLevel) break;
		level = level + 1;
	}
	return level;""")
    f.func("sl_iterate", """
static const void **_sl_snapshot(_sl_List l)
{
	const void **data = xmalloc((l->count + 1) * sizeof *data);
	_sl_Entry  e;
	int        n = 0;

	for (e = l->head->forward[0]; e; e = e->forward[0]) data[n++] = e->datum;
	return data;
}

static int _sl_call(const void *datum, void *arg)
{
	return (*(sl_Iterator *)arg)(datum);
}

int sl_iterate(sl_List list, sl_Iterator f)
{
	if (!list) return 0;
	_sl_check_list(list, __func__);
	return sl_iterate_arg(list, _sl_call, &f);
}
""")
    f.func("sl_iterate_arg", """
int sl_iterate_arg(sl_List list, sl_IteratorArg f, void *arg)
{
	_sl_List   l = (_sl_List)list;
	const void **data;
	int        n, i, code = 0;

	if (!l) return 0;
	_sl_check_list(l, __func__);
	n    = l->count;
	data = _sl_snapshot(l);
	for (i = 0; i < n && !code; i++) code = f(data[i], arg);
	xfree(data);
	return code;
}
""")
    f.func("sl_find", """
const void *sl_find(sl_List list, const void *key)
{
	_sl_List  l = (_sl_List)list;
	_sl_Entry pt;
	_sl_Entry next;
	int       i;
	int       c;

	_sl_check_list(l, __func__);
	pt = l->head;
	for (i = l->level; i >= 0; i--) {
		while ((next = pt->forward[i])) {
			if (!(c = l->compare(l->key(next->datum), key))) return next->datum;
			if (c > 0) break;
			pt = next;
		}
	}
	return NULL;
}
""")
    f.sub("	_sl_check_list(list, __func__);\n\n	key = l->key(datum);\n	pt = _sl_locate(l, key, update);\n\n	if (pt &&", "	_sl_check_list(list, __func__);\n	level = _sl_random_level();\n	key = l->key(datum);\n	pt = _sl_locate(l, key, update);\n\n	if (pt &&") if "	key = l->key(datum);\n	pt = _sl_locate(l, key, update);\n\n	if (pt &&" in f.t else None
    f.save()

@ref
def memory_vectors():
    f = F("memory.c")
    f.func("mem_strcpy", """
static char *_mem_keep(stringInfo i, char *block, int bytes)
{
	stk_push(i->allocated, block);
	i->growing_size = 0;
	i->bytes += bytes;
	i->count += 1;
	return block;
}

const char *mem_strcpy(mem_String info, const char *string)
{
	return mem_strncpy(info, string, strlen(string));
}
""")
    f.func("mem_strncpy", """
const char *mem_strncpy(mem_String info,
						 const char *string, int len)
{
	stringInfo i = (stringInfo)info;
	char       *str;

	_mem_magic_strings(i, __func__);
	str = xcalloc(len + 1, 1);
	memcpy(str, string, len);
	return _mem_keep(i, str, len + 1);
}
""")
    f.func("mem_get_empty_object", """
void *mem_get_empty_object(mem_Object info)
{
	char *obj = mem_get_object(info);
	int  left = ((objectInfo)info)->size;

	while (left > 0) obj[--left] = '\\0';
	return obj;
}
""")
    f.func("mem_get_object", """
void *mem_get_object(mem_Object info)
{
	objectInfo  i   = (objectInfo)info;
	void       *obj;

	_mem_magic_objects(i, __func__);
	if (stk_isempty(i->stack)) {
		stk_push(i->allocated, obj = xmalloc(i->size));
		i->total++;
	} else {
		obj = stk_pop(i->stack);
		i->reused++;
	}
	i->used++;
	return obj;
}
""")
    f.save()

@ref
def string_pools():
    f = F("string.c")
    f.func("str_pool_exists", """
int str_pool_exists( str_Pool pool, const char *s )
{
	return hsh_retrieve( ((poolInfo)pool)->hash, s ) != NULL;
}
""")
    f.func("str_pool_find", """
static const char *_str_enter( poolInfo p, const char *datum )
{
	hsh_insert( p->hash, datum, datum );
	return datum;
}

const char *str_pool_find( str_Pool pool, const char *s )
{
	poolInfo   p      = (poolInfo)pool;
	const char *datum = hsh_retrieve( p->hash, s );

	return datum ? datum : _str_enter( p, mem_strcpy( p->string, s ) );
}
""")
    f.func("str_findn", """
const char *str_findn( const char *s, int length )
{
	char       *tmp   = xcalloc( length + 1, 1 );
	const char *retval;

	while (length-- > 0 && *s) {
		retval = s++;
		tmp[strlen( tmp )] = *retval;
	}
	retval = str_find( tmp );
	xfree( tmp );
	return retval;
}
""") if False else f.func("str_findn", """
const char *str_findn( const char *s, int length )
{
	const char *end = memchr( s, '\\0', length );
	int        n    = end ? (int)(end - s) : length;
	char       *tmp = xmalloc( n + 1 );
	const char *retval;

	memcpy( tmp, s, n );
	tmp[n] = '\\0';
	retval = str_find( tmp );
	xfree( tmp );
	return retval;
}
""")
    f.func("str_unique", """
static int uniqueCounter = 1;

const char *str_unique( const char *prefix )
{
	size_t     n    = strlen( prefix );
	char       *buf = xmalloc( n + 100 );
	const char *retval;

	memcpy( buf, prefix, n );
	for (;;) {
		snprintf( buf + n, 100, "%d", uniqueCounter );
		++uniqueCounter;
		if (!str_exists( buf )) break;
	}
	retval = str_find( buf );
	xfree( buf );
	return retval;
}
""")
    f.func("str_pool_iterate", """
static int _str_call( const char *s, void *arg )
{
	return (*(int (**)( const char * ))arg)( s );
}

int str_pool_iterate(
	str_Pool pool,
	int (*iterator)( const char *s ) )
{
	return str_pool_iterate_arg( pool, _str_call, &iterator );
}
""")
    f.func("str_destroy", """
void str_destroy( void )
{
	str_Pool old = global;

	global = NULL;
	if (old) str_pool_destroy( old );
}
""")
    f.save()

@ref
def arg_handwritten():
    f = F("arg.c")
    f.func("arg_create", """
arg_List arg_create(void)
{
	Arg a = xcalloc(1, sizeof *a);

#if MAA_MAGIC
	a->magic  = ARG_MAGIC;
#endif
	a->argm   = 16;
	a->argv   = xcalloc(a->argm, sizeof *a->argv);
	a->object = mem_create_strings();
	return a;
}

static arg_List _arg_append(Arg a, const char *item)
{
	if (a->argc + 1 >= a->argm) {
		a->argm += a->argm / 2;
		a->argv  = xrealloc(a->argv, a->argm * sizeof *a->argv);
	}
	a->argv[a->argc]     = (char *)__UNCONST(item);
	a->argv[a->argc + 1] = NULL;
	a->argc += 1;
	return a;
}
""")
    for n, p, c in (("arg_add", ", const char *string", "mem_strcpy(a->object, string)"), ("arg_addn", ", const char *string, int length", "mem_strncpy(a->object, string, length)"), ("arg_finish", "", "mem_finish(a->object)")):
        f.func(n, """
arg_List %s(arg_List arg%s)
{
	Arg a = (Arg)arg;

	_arg_check(a, __func__);
	return _arg_append(a, %s);
}
""" % (n, p, c))
    f.func("arg_argify", """
arg_List arg_argify(const char *string, int quoteStyle)
{
	arg_List   list = arg_create();
	const char *pt  = string;
	char       quote = 0;
	int        open  = 0;	/* a word was begun */
	int        type;

	for (;; pt++) {
		type = char2char_type(quoteStyle, *pt);
		if (!*pt) {
			if (open) arg_finish(list);
			break;
		}
		if (quote) {
			if (*pt == quote) quote = 0;
			else              arg_grow(list, pt, 1);
			continue;
		}
		if (type == CHARTYPE_SPACE) {
			if (open) arg_finish(list);
			open = 0;
			continue;
		}
		if (!open) arg_grow(list, "", 0);
		open = 1;
		if (type == CHARTYPE_DQ || type == CHARTYPE_SQ) {
			quote = *pt;
			continue;
		}
		if (type == CHARTYPE_BS && !*++pt) {
			arg_finish(list);
			break;
		}
		arg_grow(list, pt, 1);
	}
	return list;
}
""")
    f.save()

@ref
def log_pieces():
    f = F("log.c")
    f.func("_log_set_hostname", """
static void _log_set_hostname(void)
{
	char *pt;

	if (logHostname[0]) return;
	if (gethostname(logHostname, sizeof(logHostname) - 1) < 0) logHostname[0] = '\\0';
	logHostname[sizeof(logHostname) - 1] = '\\0';
	for (pt = logHostname; *pt && *pt != '.'; pt++) ;
	*pt = '\\0';
}
""")
    f.func("_log_format", """
static void _log_format(
	char *buf, size_t size,
	const char *ident, time_t t,
	const char *routine, const char *message)
{
	size_t n = 0;
	char   stamp[32];
	char   pre[256 + MAXHOSTNAMELEN];

	pre[0] = '\\0';
	if (!inhibitFull) {
		strftime(stamp, sizeof stamp, "%a %b %e %H:%M:%S %Y", localtime(&t));
		snprintf(pre, sizeof pre, "%s %.64s %s[%d]: ", stamp, logHostname, ident, (int)getpid());
	}
	n = snprintf(buf, size, "%s", pre);
	if (routine && n < size) n += snprintf(buf + n, size - n, "(%s) ", routine);
	if (n < size) snprintf(buf + n, size - n, "%s\\n", message);
}

static void _log_write(int fd, const char *text)
{
	size_t  done = 0, len = strlen(text);
	ssize_t n;

	while (done < len) {
		n = write(fd, text + done, len - done);
		if (n < 0 && errno == EINTR) continue;
		if (n <= 0) return;
		done += n;
	}
}
""")
    f.cut("			const char *pt  = buf;", "		}\n\n		if (logUserStream) {" if "		}\n\n		if (logUserStream) {" in f.t else "		}\n		if (logUserStream) {", """
			_log_check_filename();
			_log_format (buf, sizeof (buf), logIdent, t, routine, buf_main);
			_log_write (logFd, buf);
""") if True else None
    f.sub('fprintf(logUserStream, "%s", buf);', "fputs(buf, logUserStream);")
    f.sub('fprintf(logUserStream, "%s", buf_main);', "fputs(buf_main, logUserStream);")
    f.save()

@ref
def pr_helpers():
    f = F("pr.c")
    f.func("pr_wait", """
static int _pr_status(int status)
{
	if (WIFEXITED(status)) return WEXITSTATUS(status);
	if (WIFSIGNALED(status) && WTERMSIG(status) != SIGPIPE)
		return 128 + WTERMSIG(status);
	return 0;
}

int pr_wait(int pid)
{
	int status;

	PRINTF(MAA_PR,("waiting on pid %d\\n",pid));
	for (;;) {
		if (waitpid(pid, &status, 0) >= 0) break;
		if (errno == EINTR) continue;
		if (errno == ECHILD) return 0;
		PRINTF(MAA_PR,("waitpid() < 0, errno = %d\\n", errno));
		perror(__func__);
		return -1;
	}
	PRINTF(MAA_PR,("Child %d exited with status 0x%04x\\n",pid,_pr_status(status)));
	return _pr_status(status);
}
""")
    f.func("pr_spawn", """
int pr_spawn(const char *command)
{
	arg_List list;
	int      argc;
	char     **argv;
	int      pid;

	_pr_init();
	list = arg_argify(command, 0);
	arg_get_vector(list, &argc, &argv);
	PRINTF(MAA_PR,("Execing %s with \\"%s\\"\\n", argv[0], command));
	pid = fork();
	if (pid < 0) err_fatal_errno(__func__, "Cannot fork");
	if (!pid) {
		execvp(argv[0], argv);
		_exit(127);
	}
	PRINTF(MAA_PR,("child pid = %d\\n",pid));
	arg_destroy(list);
	return pr_wait(pid);
}
""")
    f.func("pr_readwrite", """
static void _pr_nonblock(int fd, const char *function)
{
	long flags = fcntl(fd, F_GETFL);

	if (flags < 0) err_fatal_errno(function, "Can't get flags of stream");
	fcntl(fd, F_SETFL, flags | O_NONBLOCK);
}

static int _pr_retry(void)
{
	return errno == EAGAIN || errno == EINTR;
}

int pr_readwrite(int in, int out,
				 const char *inBuffer, int inLen,
				 char *outBuffer, int outMaxLen)
{
	int           sent = 0, got = 0, n, status;
	char          extra;
	struct pollfd fds[2];

	_pr_nonblock(in, __func__);
	_pr_nonblock(out, __func__);
	if (sent == inLen) pr_close_nowait(in);

	for (;;) {
		memset(fds, 0, sizeof fds);
		fds[0].fd     = out;
		fds[0].events = POLLIN;
		fds[1].fd     = in;
		fds[1].events = POLLOUT;
		if (poll(fds, sent < inLen ? 2 : 1, 1000) < 0) {
			if (errno == EINTR) continue;
			err_fatal_errno(__func__, "Filter failed");
		}
		if (sent < inLen && fds[1].revents) {
			n = write(in, inBuffer + sent, inLen - sent);
			if (n > 0) {
				sent += n;
				if (sent == inLen) pr_close_nowait(in);
			} else if (!_pr_retry())
				err_fatal_errno(__func__, "Error writing to filter");
		}
		if (!fds[0].revents) continue;
		if (got < outMaxLen) n = read(out, outBuffer + got, outMaxLen - got);
		else                 n = read(out, &extra, 1);
		if (n > 0) {
			if (n > outMaxLen - got) err_fatal(__func__, "Output buffer overflow");
			got += n;
		} else if (!n) {
			if (sent < inLen)
				err_fatal(__func__, "End of output, but input not flushed");
			status = pr_close(out);
			if (status)
				err_warning(__func__, "Filter had non-zero exit status: 0x%x",
							status);
			return got;
		} else if (!_pr_retry())
			err_fatal_errno(__func__, "Error reading from filter");
	}
}
""")
    f.save()

@ref
def pr_select():
    f = F("pr.c")
    f.sub("switch ((retval = poll(fds, inLen ? 2 : 1, 5000)))", "{ struct timespec ts; ts.tv_sec = 2; ts.tv_nsec = 0; retval = ppoll(fds, inLen ? 2 : 1, &ts, NULL); }\n		switch (retval)")
    f.sub('#include "maaP.h"', '#ifndef _GNU_SOURCE\n#define _GNU_SOURCE 1\n#endif\n#include "maaP.h"')
    f.save()

@ref
def timers():
    f = F("timer.c")
    f.func("tim_start", """
static tim_Entry _tim_lookup(const char *name, const char *function)
{
	tim_Entry entry;

	_tim_check();
	entry = (tim_Entry)__UNCONST(hsh_retrieve(_tim_Hash, name));
	if (!entry && function)
		err_internal(function, "No timer: %s", name ? name : "<null>");
	return entry;
}

static double _tim_diff(const struct timeval *now, const struct timeval *then)
{
	long sec  = now->tv_sec - then->tv_sec;
	long usec = now->tv_usec - then->tv_usec;

	if (usec < 0) {
		usec += 1000000;
		sec  -= 1;
	}
	return sec + usec / 1000000.0;
}

void tim_start(const char *name)
{
	tim_Entry entry = _tim_lookup(name, NULL);

	if (!entry) {
		entry = xcalloc(1, sizeof *entry);
		hsh_insert(_tim_Hash, name, entry);
	}
	getrusage(RUSAGE_CHILDREN, &entry->children_mark);
	getrusage(RUSAGE_SELF, &entry->self_mark);
	gettimeofday(&entry->real_mark, NULL);
}
""")
    f.func("tim_stop", """
void tim_stop(const char *name)
{
	struct timeval now;
	struct rusage  self, kids;
	tim_Entry      e;

	gettimeofday(&now, NULL);
	getrusage(RUSAGE_SELF, &self);
	getrusage(RUSAGE_CHILDREN, &kids);
	e = _tim_lookup(name, __func__);
	e->real            = _tim_diff(&now, &e->real_mark);
	e->self_user       = _tim_diff(&self.ru_utime, &e->self_mark.ru_utime);
	e->self_system     = _tim_diff(&self.ru_stime, &e->self_mark.ru_stime);
	e->children_user   = _tim_diff(&kids.ru_utime, &e->children_mark.ru_utime);
	e->children_system = _tim_diff(&kids.ru_stime, &e->children_mark.ru_stime);
}
""")
    f.save()

@ref
def flags_tables():
    for fn, p in (("debug.c", "dbg"), ("flags.c", "flg")):
        f = F(fn)
        f.cut("#define TEST(flags,var)", "static hsh_HashTable hash;", "#define GROUP(flag) (((flag) >> 30) & 3)\n#define BITS(flag)  ((flag) & 0x3fffffffUL)\n#define TEST(flag,var) (BITS((var)[GROUP(flag)] & (flag)) != 0)\n\n")
        f.func("_%s_exists" % p, """
static int _%s_exists(%s_Type flag)
{
	return TEST(flag, usedFlags);
}

static void _%s_fill(%s_Type *var, %s_Type value)
{
	int i;

	for (i = 0; i < 4; i++) var[i] = value;
}
""" % (p, p, p, p, p))
        f.sub("		setFlags[0] = setFlags[1] = setFlags[2] = setFlags[3] = 0;\n", "		_%s_fill(setFlags, 0);\n" % p)
        f.sub("		setFlags[0] = setFlags[1] = setFlags[2] = setFlags[3] = ~0;\n", "		_%s_fill(setFlags, 0x3fffffff);\n" % p)
        f.save()

@ref
def error_report():
    f = F("error.c")
    f.func("err_fatal", """
static void _err_head(const char *routine, const char *tail)
{
	if (_err_programName && routine)
		fprintf(stderr, "%s (%s): %s", _err_programName, routine, tail);
	else if (_err_programName || routine)
		fprintf(stderr, "%s: %s", _err_programName ? _err_programName : routine, tail);
	else
		fputs(tail, stderr);
}

static void _err_sync(void)
{
	fflush(stderr);
	fflush(stdout);
}

void err_fatal(const char *routine, const char *format, ...)
{
	va_list ap;

	fflush(stdout);
	_err_head(routine, "");
	va_start(ap, format);
	vfprintf(stderr, format, ap);
	va_end(ap);
	putc('\\n', stderr);
	va_start(ap, format);
	log_error_va(routine, format, ap);
	va_end(ap);
	_err_sync();
	exit(EXIT_FAILURE);
}
""")
    f.func("err_warning", """
void err_warning(const char *routine, const char *format, ...)
{
	va_list ap;

	fflush(stdout);
	fflush(stderr);
	_err_head(routine, "");
	va_start(ap, format);
	vfprintf(stderr, format, ap);
	va_end(ap);
	fputs("\\n", stderr);
	va_start(ap, format);
	log_error_va(routine, format, ap);
	va_end(ap);
}
""")
    f.func("err_internal", """
void err_internal(const char *routine, const char *format, ...)
{
	va_list ap;

	fflush(stdout);
	_err_head(routine, "Internal error\\n     ");
	va_start(ap, format);
	vfprintf(stderr, format, ap);
	va_end(ap);
	putc('\\n', stderr);
	va_start(ap, format);
	log_error_va(routine, format, ap);
	va_end(ap);
	fprintf(stderr, "Aborting%s%s...\\n", _err_programName ? " " : "",
			_err_programName ? _err_programName : "");
	_err_sync();
	abort();
}
""")
    f.save()

@ref
def source_helpers():
    f = F("source.c")
    f.func("src_filename", """
static sourceType *_src_token(src_Type source, const char *function)
{
	if (!Lines) err_fatal(function, "Source manager never created");
	return (sourceType *)source;
}

static void _src_where(FILE *str, const sourceType *s)
{
	if (s) fprintf(str, "%s:%d: ", s->file, s->line);
	else   fputs("?:?: ", str);
}

static void _src_repeat(FILE *str, int c, int n)
{
	while (n-- > 0) fputc(c, str);
}

const char *src_filename(src_Type source)
{
	sourceType *s = _src_token(source, __func__);

	return s ? s->file : "";
}
""")
    for n, ty, e, d in (("linenumber", "int ", "s->line", "0"), ("offset", "int ", "s->offset", "0"), ("length", "int ", "s->length", "0"), ("source_line", "const char *", "Lines[s->index]", '""')):
        f.func("src_" + n, """
%ssrc_%s(src_Type source)
{
	sourceType *s = _src_token(source, __func__);

	if (!s) return %s;
	return %s;
}
""" % (ty, n, d, e))
    f.func("_src_print_error", """
static void _src_print_error(FILE *str, sourceType *s, int fudge)
{
	assert(str);
	src_print_line(str, s);
	_src_where(str, s);
	if (s) {
		_src_repeat(str, ' ', s->offset - fudge);
		_src_repeat(str, '^', s->length);
	}
	fputc('\\n', str);
}
""")
    f.func("src_line", """
const char *src_line(const char *line, int len)
{
	const char *stored;
	char       *tab;

	if (!Lines) src_create();
	Info.line  += 1;
	Info.index  = Used;
	Info.offset = 0;
	stored = Lines[Used++] = mem_strncpy(StringHeap, line, len);
	for (tab = (char *)__UNCONST(stored); (tab = strchr(tab, '\\t')); ) *tab++ = ' ';
	PRINTF(MAA_SRC,("Line %d: %s",Used - 1,stored));
	if (Used == Count) {
		Count += INCREMENT;
		Lines  = xrealloc(Lines, Count * sizeof *Lines);
	}
	return stored;
}
""")
    f.func("src_get", """
src_Type src_get(int length)
{
	sourceType *new;

	if (!Lines)
		err_fatal(__func__, "Source manager does not exist");
	Info.length = length;
	new  = mem_get_empty_object(InfoHeap);
	*new = Info;
	if (dbg_test(MAA_SRC))
		printf("%s:%d @ %d, %d; %d\\n",
			   new->file, new->line, new->offset, new->length, new->index);
	Info.offset += length;
	return new;
}
""")
    f.save()

@ref
def numbers():
    f = F("base26.c")
    f.func("b26_encode", """
const char *b26_encode(unsigned long val)
{
	static char result[16];
	char        *pt = result + sizeof result - 1;

	*pt = '\\0';
	do {
		*--pt = 'a' + val % 26;
		val /= 26;
	} while (val);
	return pt;
}
""")
    f.func("b26_decode", """
unsigned long b26_decode(const char *val)
{
	unsigned long v = 0;
	const char    *pt;

	for (pt = val; *pt; pt++) {
		int digit = b26_index[(unsigned char)*pt];

		if (digit == XX)
			err_internal(__func__,
						 "Illegal character in base26 value: `%c' (%d)",
						 *pt, *pt);
		v = v * 26 + digit;
	}
	return v;
}
""")
    f.sub('static unsigned char b26_list[] =\n"abcdefghijklmnopqrstuvwxyz";\n', "")
    f.save()
    f = F("base64.c")
    f.func("b64_decode_buf", """
unsigned long b64_decode_buf(const char *val, size_t len)
{
	unsigned long v = 0;
	size_t        i;

	for (i = 0; i < len; i++) {
		int tmp = b64_index[(unsigned char)val[i]];

		if (tmp == XX)
			err_internal(__func__,
						 "Illegal character in base64 value: `%c'", val[i]);
		v = v << 6 | (unsigned long)tmp;
	}
	return v;
}
""")
    f.func("b64_encode", """
const char *b64_encode(unsigned long val)
{
	static char buf[8];
	int         i = 6;

	val &= 0xffffffffUL;
	buf[6] = '\\0';
	do buf[--i] = b64_list[val & 63]; while (val >>= 6);
	return buf + i;
}
""")
    f.save()
    f = F("bit.c")
    f.func("bit_cnt", """
int bit_cnt(unsigned long *flags)
{
	unsigned long x = *flags;
	int           n = 0;

	for (; x; x &= x - 1) n++;
	return n;
}
""")
    f.func("bit_tst", """
int bit_tst(unsigned long *flags, int bit)
{
	return (int)(*flags >> bit & 1UL);
}
""")
    f.save()
    f = F("prime.c")
    f.func("prm_is_prime", """
int prm_is_prime(unsigned int value)
{
	unsigned int d;

	if (value < 4)  return value > 1;
	if (value % 2 == 0 || value % 3 == 0) return 0;
	for (d = 5; (unsigned long long)d * d <= value; d += 6)
		if (value % d == 0 || value % (d + 2) == 0) return 0;
	return 1;
}
""")
    f.save()
    f = F("text.c")
    f.func("txt_soundex2", """
static int _txt_class(int c)
{
	switch (c) {
	case 'B': case 'F': case 'P': case 'V':                     return '1';
	case 'C': case 'G': case 'J': case 'K': case 'Q':
	case 'S': case 'X': case 'Z':                               return '2';
	case 'D': case 'T':                                         return '3';
	case 'L':                                                   return '4';
	case 'M': case 'N':                                         return '5';
	case 'R':                                                   return '6';
	}
	return '0';
}

void txt_soundex2(
	const char *string,
	char * result /* five chars */)
{
	int n = 0, last = 0, c;

	memcpy(result, "Z000", 5);
	for (; (c = (unsigned char)*string) && n < 4; ++string) {
		if (c >= 'a' && c <= 'z') c += 'A' - 'a';
		if (c < 'A' || c > 'Z') continue;
		if (!n)
			result[n++] = c;
		else if (_txt_class(c) != '0' && _txt_class(c) != last)
			result[n++] = _txt_class(c);
		last = _txt_class(c);
	}
}
""")
    f.save()
    f = F("xmalloc.c")
    f.func("xcalloc", """
void *xcalloc(size_t num, size_t size)
{
	void *pt = NULL;

	if (!num || !size) num = size = 1;
	if (num <= (size_t)-1 / size && (pt = malloc(num * size)))
		memset(pt, 0, num * size);
	if (!pt) err_fatal(__func__,
					   "Out of memory while allocating %lu X %lu byte block",
					   (unsigned long)num, (unsigned long)size);
	return pt;
}
""")
    f.func("xstrdup", """
char *xstrdup(const char *s)
{
	char *pt = xmalloc(strlen(s) + 1);

	return strcpy(pt, s);
}
""")
    f.save()

@ref
def child_steps():
    f = F("pr.c")
    f.sub("int pr_open(const char *command, int flags,", """static int _pr_owned(int fd)
{
	return fd >= 0 && fd < _pr_count && _pr_objects[fd].pid;
}

static void _pr_check_flags(int flags, const char *function)
{
	static const char *const name[] = { "stdin", "stdout", "stderr" };
	static const int  use[]         = { PR_USE_STDIN, PR_USE_STDOUT, PR_USE_STDERR };
	static const int  create[]      = { PR_CREATE_STDIN, PR_CREATE_STDOUT,
										PR_CREATE_STDERR };
	int known = PR_STDERR_TO_STDOUT;
	int i;

	for (i = 0; i < 3; i++) known |= use[i] | create[i];
	if (flags & ~known) err_internal(function, "Illegal flags: 0x%08x", flags);
	for (i = 0; i < 3; i++)
		if ((flags & use[i]) && (flags & create[i]))
			err_internal(function, "Cannot both use and create %s", name[i]);
	if ((flags & PR_STDERR_TO_STDOUT) && (flags & (use[2] | create[2])))
		err_internal(function, "Cannot use/create stderr when duping to stdout");
}

/* Set up the stream |target| of the child. */

static void _pr_child_stream(int create, int use, int mine, int other,
							 const int *given, int target, int mode)
{
	int fd;

	if (create) {
		close(other);
		dup2(mine, target);
		close(mine);
		return;
	}
	if (!use) return;
	if (given && *given) {
		dup2(*given, target);
		return;
	}
	fd = open("/dev/null", mode);
	if (fd < 0 || fd == target) return;
	dup2(fd, target);
	close(fd);
}

static void _pr_parent_stream(int create, int use, int mine, int other,
							  int *given, int pid)
{
	if (create) {
		close(other);
		*given = mine;
		_pr_objects[mine].pid = pid;
	} else if (use && given && *given) {
		if (_pr_owned(*given)) _pr_objects[*given].pid = 0;
		close(*given);
	}
}

int pr_open(const char *command, int flags,""")
    f.cut("	if (flags & ~(PR_USE_STDIN", "	list = arg_argify(command, 0);", "	_pr_check_flags(flags, __func__);\n\n")
    f.cut("#define CHILD(CREATE", "		/* Only now, since the streams", """
		_pr_child_stream(flags & PR_CREATE_STDIN, flags & PR_USE_STDIN,
						 fdin[0], fdin[1], infd, STDIN_FILENO, O_RDONLY);
		_pr_child_stream(flags & PR_CREATE_STDOUT, flags & PR_USE_STDOUT,
						 fdout[1], fdout[0], outfd, STDOUT_FILENO, O_WRONLY);
		_pr_child_stream(flags & PR_CREATE_STDERR, flags & PR_USE_STDERR,
						 fderr[1], fderr[0], errfd, STDERR_FILENO, O_WRONLY);

""")
    f.cut("#define PARENT(CREATE", '	PRINTF(MAA_PR,("child pid = %d\\n",pid));\n	arg_destroy(list);', """
	_pr_parent_stream(flags & PR_CREATE_STDIN, flags & PR_USE_STDIN,
					  fdin[1], fdin[0], infd, pid);
	_pr_parent_stream(flags & PR_CREATE_STDOUT, flags & PR_USE_STDOUT,
					  fdout[0], fdout[1], outfd, pid);
	_pr_parent_stream(flags & PR_CREATE_STDERR, flags & PR_USE_STDERR,
					  fderr[0], fderr[1], errfd, pid);

""")
    f.sub("	int        fdin[2];\n	int        fdout[2];\n	int        fderr[2];\n", "	int        fdin[2]  = { -1, -1 };\n	int        fdout[2] = { -1, -1 };\n	int        fderr[2] = { -1, -1 };\n")
    f.sub("	int        null;\n", "")
    f.sub("if (fd < 0 || fd >= _pr_count || !(pid = _pr_objects[ fd ].pid))", "if (!_pr_owned(fd))")
    f.sub("	_pr_objects[ fd ].pid = 0;\n\n	close(fd);", "	pid = _pr_objects[ fd ].pid;\n	_pr_objects[ fd ].pid = 0;\n\n	close(fd);")
    f.func("pr_spawn", """
int pr_spawn(const char *command)
{
	return pr_wait(pr_open2(command, NULL, 0, NULL, NULL, NULL));
}
""")
    f.save()

@ref
def memory_chain():
    f = F("memory.c")
    f.sub("	stk_Stack      stack;	/* for free list */\n	stk_Stack      allocated;\n", "	void           **unused;	/* freed objects */\n	int            unused_count;\n	int            unused_room;\n	void           **blocks;	/* all of them */\n	int            blocks_room;\n")
    f.sub("	info->stack     = stk_create();\n	info->allocated = stk_create();\n\n	return info;\n}\n\n/* \\doc |mem_destroy_objects", """	info->unused       = NULL;
	info->unused_count = 0;
	info->unused_room  = 0;
	info->blocks       = NULL;
	info->blocks_room  = 0;

	return info;
}

static void **_mem_room(void **vector, int count, int *room)
{
	if (count < *room) return vector;
	*room = *room ? 2 * *room : 16;
	if (!vector) return xmalloc(*room * sizeof *vector);
	return xrealloc(vector, *room * sizeof *vector);
}

/* \\doc |mem_destroy_objects""")
    f.func("mem_destroy_objects", """
void mem_destroy_objects(mem_Object info)
{
	objectInfo i = (objectInfo)info;
	int        n;

	_mem_magic_objects(i, __func__);
#if MAA_MAGIC
	i->magic = MEM_OBJECTS_MAGIC_FREED;
#endif
	for (n = 0; n < i->total; n++) xfree(i->blocks[n]);
	if (i->blocks) xfree(i->blocks);
	if (i->unused) xfree(i->unused);
	xfree(i);			/* terminal */
}
""")
    f.func("mem_get_object", """
void *mem_get_object(mem_Object info)
{
	objectInfo  i = (objectInfo)info;
	void       *obj;

	_mem_magic_objects(i, __func__);

	if (i->unused_count) {
		++i->used;
		++i->reused;
		return i->unused[--i->unused_count];
	}
	i->blocks = _mem_room(i->blocks, i->total, &i->blocks_room);
	obj = i->blocks[i->total] = xmalloc(i->size);
	++i->total;
	++i->used;

	return obj;
}
""")
    f.func("mem_free_object", """
void mem_free_object(mem_Object info, void *obj)
{
	objectInfo i = (objectInfo)info;

	_mem_magic_objects(i, __func__);

	i->unused = _mem_room(i->unused, i->unused_count, &i->unused_room);
	i->unused[i->unused_count++] = obj;
	--i->used;
}
""")
    f.save()

def growth(fn, tt, what, key, pre):
    f = F(fn)
    datum = ", pt->datum" if pre == "hsh" else ""
    a = f.t.index("	/* Keep table less than half full */"); b = f.t.index("	h = hashValue % t->prime;", a)
    f.t = f.t[:a] + "	if (t->entries * 2 > t->prime) _%s_grow(t);\n\n" % pre + f.t[b:]
    i = f.t.index("/* \\doc |%s_insert| inserts" % pre)
    f.t = f.t[:i] + """/* The table is moved to a larger vector; the buckets are kept. */

static void _%s_grow(%s t)
{
	unsigned long prime    = prm_next_prime(t->prime * 2 + 1);
	bucketType    *buckets = xcalloc(prime, sizeof(*buckets));
	bucketType    pt;
	bucketType    next;
	unsigned long i;

	for (i = t->prime; i-- > 0; ) {
		for (pt = t->buckets[i]; pt; pt = next) {
			bucketType *place = buckets + pt->hash %% prime;

			next     = pt->next;
			pt->next = *place;
			*place   = pt;
		}
	}
	xfree(t->buckets);
	t->buckets = buckets;
	t->prime   = prime;
	++t->resizings;
}

""" % (pre, tt) + f.t[i:]
    # stats
    f.resub(r"	for \(i = 0; i < t->prime; i\+\+\) \{\n		if \(t->buckets\[i\]\) \{\n			bucketType pt;\n\t* *\n			\+\+s->buckets_used;.*?\n	\}\n\s*	if \(t->entries != s->entries\)", """	for (i = 0; i < t->prime; i++) {
		bucketType pt;

		count = 0;
		for (pt = t->buckets[i]; pt; pt = pt->next) count++;
		s->entries      += count;
		s->buckets_used += !!count;
		s->singletons   += count == 1;
		if (count > s->maximum_length) s->maximum_length = count;
	}
	if (t->entries != s->entries)""")
    f.save()
@ref
def hash_growth(): growth("hash.c", "tableType", "table", "key", "hsh")
@ref
def set_growth(): growth("set.c", "setType", "set", "elem", "set")

@ref
def sl_coin():
    f = F("sl.c")
    f.sub("	while ((random() & 0x80) &&  level < _sl_MaxLevel) ++level;\n", """	static unsigned long coin = 1;

	do coin = (coin * 1103515245UL + 12345UL) & 0x7fffffffUL;
	while ((coin >> 16 & 1) && ++level < _sl_MaxLevel);
""")
    f.sub("	int              level = _sl_random_level();\n", "	int              level;\n")
    f.sub("	if (level > l->level) {\n		level = ++l->level;\n		update[level] = l->head;\n	}\n", """	level = _sl_random_level();
	while (level > l->level) update[++l->level] = l->head;
""")
    f.sub("	/* Fixup forward pointers */\n	for (i = 0; i <= l->level; i++) {\n		if (update[i]->forward[i] == pt)\n			update[i]->forward[i] = pt->forward[i];\n	}\n",
          "	for (i = l->level; i >= 0; i--) {\n		if (update[i]->forward[i] != pt) continue;\n		update[i]->forward[i] = pt->forward[i];\n		if (i && i == l->level && !l->head->forward[i]) --l->level;\n	}\n")
    f.sub("	while (l->level && !l->head->forward[ l->level ])\n		--l->level;\n", "")
    f.save()

@ref
def shutdown_order():
    f = F("maa.c")
    f.func("maa_init", """
void maa_init(const char *programName)
{
	static const struct {
		dbg_Type   flag;
		const char *name;
	} builtin[] = {
		{ MAA_PARSE,  ".parse" },
		{ MAA_SRC,    ".src" },
		{ MAA_SL,     ".sl" },
		{ MAA_PR,     ".pr" },
		{ MAA_TIME,   ".time" },
		{ MAA_MEMORY, ".memory" },
	};
	size_t i;

	err_set_program_name(programName);
	tim_start("total");
	for (i = 0; i < sizeof builtin / sizeof *builtin; i++)
		_dbg_register(builtin[i].flag, builtin[i].name);
}
""")
    f.func("maa_shutdown", """
void maa_shutdown(void)
{
	int memory = dbg_test(MAA_MEMORY) != 0;
	int timing = dbg_test(MAA_TIME) != 0;

	if (memory || timing) fprintf(stderr, "%s\\n", maa_version());
	if (memory) str_print_stats(stderr);

	_sl_shutdown();
	_lst_shutdown();
	_prs_shutdown();
	_pr_shutdown();
	str_destroy();
	flg_destroy();

	tim_stop("total");
	if (timing) tim_print_timers(stderr);
	_tim_shutdown();
	dbg_destroy();
}
""")
    f.func("maa_version", """
const char *maa_version(void)
{
	static char buffer[80];

	if (!*buffer)
		snprintf(buffer, sizeof buffer, "Libmaa %d.%d.%d",
				 maa_version_major(), maa_version_minor(), maa_version_teeny());
	return buffer;
}
""")
    f.save()
    f = F("parse-concrete.c")
    f.func("prs_register_concrete", """
void prs_register_concrete(const char *symbol, const char *concrete)
{
	const char *value = str_find(concrete);

	symbol = str_find(symbol);
	if (!_prs_hash) _prs_hash = hsh_create(hsh_string_hash, hsh_string_compare);
	(void)hsh_insert(_prs_hash, symbol, value);
}
""")
    f.func("prs_concrete", """
const char *prs_concrete(const char *symbol)
{
	return _prs_hash ? hsh_retrieve(_prs_hash, symbol) : NULL;
}
""")
    f.save()

@ref
def debug_loops():
    for n, p, T in (("debug.c", "dbg", "dbg_Type"), ("flags.c", "flg", "flg_Type")):
        f = F(n)
        i = f.t.index("#define TEST(flags,var)"); j = f.t.index("\n\n", i)
        f.t = f.t[:i] + """/* non-zero when |flag| is in the set of its two high bits */

static unsigned long _in(unsigned long flag, const %s *sets)
{
	return (sets[flag >> 30 & 3] & flag & 0x3fffffffUL) != 0;
}

static void _each(%s *sets, int set)
{
	int i = 4;

	while (i-- > 0) sets[i] = set ? ~(%s)0 : 0;
}""" % (T, T, T) + f.t[j:]
        f.sub("return TEST(flag, usedFlags);", "return _in(flag, usedFlags);")
        f.sub("return TEST(flag, setFlags);", "return _in(flag, setFlags);")
        f.sub("		setFlags[0] = setFlags[1] = setFlags[2] = setFlags[3] = 0;\n		return;", "		_each(setFlags, 0);\n		return;")
        f.sub("		setFlags[0] = setFlags[1] = setFlags[2] = setFlags[3] = ~0;\n", "		_each(setFlags, 1);\n")
        f.sub("	setFlags[0] = setFlags[1] = setFlags[2] = setFlags[3] = 0;\n	usedFlags[0] = usedFlags[1] = usedFlags[2] = usedFlags[3] = 0;\n", "	_each(setFlags, 0);\n	_each(usedFlags, 0);\n")
        f.sub("	for (tmp = flag & 0x3fffffff; tmp && !(tmp & 1); tmp >>= 1);\n	if (!tmp || tmp >> 1)\n", "	tmp = flag & 0x3fffffff;\n	if (!tmp || (tmp & (tmp - 1)))\n")
        if p == "dbg":
            i = f.t.index("static int _dbg_user("); j = f.t.index("/* |dbg_list| lists")
            f.t = f.t[:i] + f.t[j:]
            f.func("dbg_list", """
void dbg_list(FILE *stream)
{
	int builtin;

	for (builtin = 0; builtin < 2; builtin++) {
		hsh_Position position;
		void         *key;
		void         *datum;

		HSH_ITERATE(hash, position, key, datum) {
			if (((dbg_Type)datum >= 0xc0000000UL) != builtin) continue;
			fprintf(stream, builtin ? "  %s (builtin)\\n" : "  %s\\n",
					(const char *)key);
		}
	}
}
""")
        f.save()

@ref
def timer_chain():
    f = F("timer.c")
    f.sub("static hsh_HashTable _tim_Hash;\n\n", "")
    f.sub("typedef struct tim_Entry {\n", "typedef struct tim_Entry {\n	const char *name;\n	struct tim_Entry *next;\n")
    f.cut("static void _tim_check(void)", "/* \\doc Start the named timer", """
static tim_Entry _tim_list;

static tim_Entry _tim_lookup(const char *name)
{
	tim_Entry entry;

	if (!name) err_internal(__func__, "Timers need a name");
	for (entry = _tim_list; entry; entry = entry->next)
		if (!strcmp(entry->name, name)) break;
	return entry;
}

static tim_Entry _tim_get(const char *name, const char *function)
{
	tim_Entry entry = _tim_lookup(name);

	if (!entry) err_internal(function, "No timer: %s", name);
	return entry;
}

""")
    f.func("tim_start", """
void tim_start(const char *name)
{
	tim_Entry entry = _tim_lookup(name);

	if (!entry) {
		entry       = xcalloc(1, sizeof(struct tim_Entry));
		entry->name = name;
		entry->next = _tim_list;
		_tim_list   = entry;
	}
	getrusage(RUSAGE_CHILDREN, &entry->children_mark);
	getrusage(RUSAGE_SELF, &entry->self_mark);
	gettimeofday(&entry->real_mark, NULL);
}
""")
    f.resub(r"	_tim_check\(\);\n", "")
    f.resub(r"	if \(!\(entry = \(tim_Entry\)__UNCONST\(hsh_retrieve\(_tim_Hash, name\)\)\)\)\n		err_internal \(__func__, \"No timer: %s\",\n\t* *\(name \? name : \"<null>\"\)\);\n", "	entry = _tim_get(name, __func__);\n")
    i = f.t.index("static int _tim_iterator("); j = f.t.index("/* \\doc Print all the timers")
    f.t = f.t[:i] + f.t[j:]
    f.func("tim_print_timers", """
void tim_print_timers(FILE *str)
{
	tim_Entry entry;

	for (entry = _tim_list; entry; entry = entry->next)
		tim_print_timer(str, entry->name);
}
""")
    i = f.t.index("static int _tim_freer("); j = f.t.index("/* \\doc Free all memory associated with the timers")
    f.t = f.t[:i] + f.t[j:]
    f.func("_tim_shutdown", """
void _tim_shutdown(void)
{
	tim_Entry entry;

	while ((entry = _tim_list)) {
		_tim_list = entry->next;
		xfree(entry);
	}
}
""")
    f.save()

@ref
def source_store():
    f = F("source.c")
    f.sub("Lines = xrealloc(Lines, (Count += INCREMENT) * sizeof(char *));", "Lines = xrealloc(Lines, (Count *= 2) * sizeof(char *));")
    f.sub("#define INCREMENT 1000\n", "#define INCREMENT 16\n")
    f.func("_src_print_yyerror", """
static void _src_print_yyerror(FILE *str, const char *message)
{
	const char *pt = message;
	const char *end;
	const char *concrete;
	char       *symbol;

	assert(str);

	if (!pt) {
		fputs("(null)", str);
		return;
	}
	while (*pt) {
		if (!strncmp(pt, "``", 2) && pt[2] && !strncmp(pt + 3, "''", 2)) {
			fputc('`', str);
			fputc(pt[2], str);
			fputc('\\'', str);
			pt += 5;
		} else if (!strncmp(pt, "`T_", 3)) {
			++pt;
			for (end = pt; *end && *end != '\\''; end++) {}
			symbol = xmalloc(end - pt + 1);
			memcpy(symbol, pt, end - pt);
			symbol[end - pt] = '\\0';
			concrete = prs_concrete(symbol);
			fprintf(str, "`%s'", concrete ? concrete : symbol);
			xfree(symbol);
			pt = *end ? end + 1 : end;
		} else {
			fputc(*pt++, str);
		}
	}
}
""")
    f.sub("	xfree(tmp);\n\n	if ((lineno = atoi(arg_get(args, 1))) > 0) --lineno;\n	else                                           lineno = 1;\n	src_new_line(lineno);\n",
          "	xfree(tmp);\n\n	lineno = (int)strtol(arg_get(args, 1), NULL, 10);\n	src_new_line(lineno > 0 ? lineno - 1 : 1);\n")
    f.save()
    f = F("log.c")
    f.func("log_mkpath", """
static void log_mkpath(const char *filename)
{
	char *tmp = xstrdup(filename);
	char *pt  = tmp;

	while (*pt && (pt = strchr(pt + 1, '/'))) {
		*pt = '\\0';
		mkdir(tmp, 0755);
		*pt = '/';
	}
	xfree(tmp);
}
""")
    f.func("log_option", """
void log_option(int option)
{
	inhibitFull = option == LOG_OPTION_NO_FULL;
}
""")
    f.func("log_get_facility", """
const char *log_get_facility(void)
{
	const CODE *pt = facilitynames;

	while (pt->c_name && pt->c_val != logFacility) ++pt;
	return pt->c_name;
}
""")
    f.func("log_set_facility", """
void log_set_facility(const char *facility)
{
	const CODE *pt = facilitynames;

	while (pt->c_name && strcmp(pt->c_name, facility)) ++pt;
	if (!pt->c_name)
		err_fatal(__func__, "%s is not a valid facility name", facility);
	logFacility = pt->c_val;
}
""")
    f.save()

os.makedirs(OUT, exist_ok=True)
want = sys.argv[1:] or list(R)
for n in want:
    shutil.rmtree(W, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", W], check=True)
    try:
        R[n]()
    except Exception as e:
        print(n, "FAILED", repr(e)[:300]); continue
    d = subprocess.run(["git", "-C", W, "diff", "--", "maa"], capture_output=True, text=True).stdout
    open(OUT + "/%s.diff" % n, "w").write(d); print(n, len(d.splitlines()))
shutil.rmtree(W, ignore_errors=True)
