#!/usr/bin/env python3
"""Writes behaviour-preserving edits of the library as .diff files into the directory given; each is built and must pass the tests.
hunt.py -c all FILE.diff then shows that the checks stay quiet on them."""
import os, re, subprocess, sys, tempfile, shutil
OUT = os.path.abspath(sys.argv[1]); ONLY = sys.argv[2:]
R = {}
def E(name, *edits): R[name] = edits

E('copied-strings', ('unmarshal.go', '`re`unsafe\\.BtoS\\(', 'string('), ('unmarshal.go', '\n\t"github.com/Andrew-M-C/go.jsonvalue/internal/unsafe"\n', ''))
E('no-value-pool',
  ('jsonvalue_internal.go', '	per := internalLoadPredictSizePerValue()\n	cnt := rawSize / per\n\n	p := &poolImpl{\n		pool:    make([]V, cnt),\n		count:   cnt,\n		actual:  0,\n		rawSize: rawSize,\n	}\n\n	return p',
   '	return &poolImpl{rawSize: rawSize} // counts only'))
E('stable-sorts', ('sort.go', 'sort.Sort(', 'sort.Stable('), ('iteration.go', 'sort.Slice(', 'sort.SliceStable('), ('iteration.go', 'kvs[i].id <= kvs[j].id', 'kvs[i].id < kvs[j].id'))
E('caseless-scan',
  ('get.go', '	initCaselessStorage(v)\n\n	lowerCaseKey := strings.ToLower(key)\n	keys, exist := v.children.lowerCaseKeys[lowerCaseKey]\n	if !exist {\n		return &V{}, false\n	}\n\n	for actualKey := range keys {\n		childProperty, exist = v.children.object[actualKey]\n		if exist {\n			return childProperty.v, true\n		}\n	}\n\n	return &V{}, false',
   '	lowerCaseKey := strings.ToLower(key)\n	for actualKey, childProperty := range v.children.object {\n		if strings.ToLower(actualKey) == lowerCaseKey {\n			return childProperty.v, true\n		}\n	}\n	return &V{}, false'))
E('snapshot-in-set-order',
  ('iteration.go', '	for k, c := range v.children.object {\n		ok := callback(k, c.v)\n		if !ok {\n			break\n		}\n	}', '	v.RangeObjectsBySetSequence(callback)'),
  ('marshal.go', '	firstWritten := false\n	for k, child := range v.children.object {\n		firstWritten, err = writeObjectChildren(nil, buf, !firstWritten, k, child.v, opt)\n		if err != nil {\n			return err\n		}\n	}\n	return nil',
   '	firstWritten := false\n	v.RangeObjectsBySetSequence(func(k string, child *V) bool {\n		firstWritten, err = writeObjectChildren(nil, buf, !firstWritten, k, child, opt)\n		return err == nil\n	})\n	return err'))
E('other-error-texts', ('unmarshal.go', 'at Position', 'near offset'), ('unmarshal.go', 'parsing number at index', 'bad number at'))
E('defaults-under-mutex', ('jsonvalue_internal.go', '	"sync/atomic"', '	"sync"\n	"sync/atomic"'),
  ('jsonvalue_internal.go', '	defaultMarshalOption atomic.Value // *Opt', '	defaultMarshalOption lockedValue // *Opt'),
  ('jsonvalue_internal.go', 'func init() {', 'type lockedValue struct {\n	mu sync.RWMutex\n	v  interface{}\n}\n\nfunc (l *lockedValue) Load() interface{} {\n	l.mu.RLock()\n	defer l.mu.RUnlock()\n	return l.v\n}\n\nfunc (l *lockedValue) Store(v interface{}) {\n	l.mu.Lock()\n	l.v = v\n	l.mu.Unlock()\n}\n\nfunc init() {'))
E('bytes-buffer', ('internal/buffer/buffer.go', '	return &buffer{\n		buff: make([]byte, 0, 4096),\n	}', '	return &bytes.Buffer{}'), ('internal/buffer/buffer.go', 'package buffer\n', 'package buffer\n\nimport "bytes"\n'))
E('renumbering', ('set.go', '	v.children.incrID++\n	v.children.object[key]', '	if n := uint32(len(v.children.object)); v.children.incrID > 2*n+8 {\n		renumberChildren(v)\n	}\n	v.children.incrID++\n	v.children.object[key]'),
  ('set.go', 'func setToObjectChildren(', 'func renumberChildren(v *V) {\n	n := uint32(0)\n	v.RangeObjectsBySetSequence(func(k string, c *V) bool {\n		n++\n		v.children.object[k] = childWithProperty{id: n, v: c}\n		return true\n	})\n	v.children.incrID = n\n}\n\nfunc setToObjectChildren('))
E('wide-ids', ('jsonvalue.go', '	id uint32\n	v  *V', '	id uint64\n	v  *V'), ('jsonvalue.go', 'incrID uint32', 'incrID uint64'), ('iteration.go', 'id uint32', 'id uint64'))
E('in-place-delete-copy', ('insert_append_delete.go', '	le := len(v.children.arr)\n	v.children.arr[pos] = nil\n	copy(v.children.arr[pos:], v.children.arr[pos+1:])\n	v.children.arr = v.children.arr[:le-1]',
   '	arr := make([]*V, 0, len(v.children.arr)-1)\n	arr = append(arr, v.children.arr[:pos]...)\n	v.children.arr = append(arr, v.children.arr[pos+1:]...)'))
E('range-copy', ('iteration.go', '	for i, child := range v.children.arr {\n		if ok := callback(i, child); !ok {\n			break\n		}\n	}', '	for i, child := range append([]*V(nil), v.children.arr...) {\n		if !callback(i, child) {\n			return\n		}\n	}'))
E('iterative-get', ('get.go', '	child, err := getInCurrentValue(v, caseless, firstParam)\n	if err != nil {\n		return &V{}, err\n	}\n\n	if len(otherParams) == 0 {\n		return child, nil\n	}\n	return get(child, caseless, otherParams[0], otherParams[1:]...)',
   '	params := append([]interface{}{firstParam}, otherParams...)\n	for i, p := range params {\n		if i > 0 {\n			if ok, p1, p2 := isSliceAndExtractDividedParams(p); ok {\n				if i < len(params)-1 {\n					return &V{}, ErrMultipleParamNotSupportedWithIfSliceOrArrayGiven\n				}\n				return get(v, caseless, p1, p2...)\n			}\n		}\n		child, err := getInCurrentValue(v, caseless, p)\n		if err != nil {\n			return &V{}, err\n		}\n		v = child\n	}\n	return v, nil'))
E('scientific-compare', ('compare.go', '	if hasLongExponent(left.srcByte) || hasLongExponent(right.srcByte) {\n		return compareScientific(string(left.srcByte), string(right.srcByte))\n	}\n	d1, _ := decimal.NewFromString(string(left.srcByte))\n	d2, _ := decimal.NewFromString(string(right.srcByte))\n	return d1.Cmp(d2)', '	_ = decimal.Zero\n	return compareScientific(string(left.srcByte), string(right.srcByte))'))
E('utf8-first', ('unmarshal.go', '	offset++ // skip "\n	end := len(it)\n	sectEnd = offset\n', '	offset++ // skip "\n	end := len(it)\n	sectEnd = offset\n\n	// fast path: nothing to unescape\n	for i := offset; i < end && it[i] != \'\\\\\'; i++ {\n		if it[i] == \'"\' {\n			if utf8.Valid(it[offset:i]) {\n				return i - offset, i + 1, nil\n			}\n			break\n		}\n	}\n'))
E('cached-fields', ('import_export.go', '	for _, f := range dominantFields(structFields(v.Type(), nil, nil)) {', '	for _, f := range cachedFields(v.Type()) {'),
  ('import_export.go', 'func parseStructValue(', 'var fieldCache sync.Map // reflect.Type -> []structField\n\nfunc cachedFields(t reflect.Type) []structField {\n	if f, ok := fieldCache.Load(t); ok {\n		return f.([]structField)\n	}\n	f, _ := fieldCache.LoadOrStore(t, dominantFields(structFields(t, nil, nil)))\n	return f.([]structField)\n}\n\nfunc parseStructValue('),
  ('import_export.go', '	"strings"\n', '	"strings"\n	"sync"\n'))
E('growing-indent', ('marshal.go', '	for i := 0; i < opt.indent.cnt; i++ {\n		_, _ = buf.WriteString(opt.indent.indent)\n	}', '	_, _ = buf.WriteString(strings.Repeat(opt.indent.indent, opt.indent.cnt))'))
E('digit-table', ('conv.go', '	_, _ = buf.Write([]byte{\'\\\\\', \'u\', \'0\', \'0\'})\n	writeChar(upper)\n	writeChar(lower)', '	_ = writeChar\n	_, _ = buf.WriteString(`\\u00`)\n	_ = buf.WriteByte("0123456789ABCDEF"[upper])\n	_ = buf.WriteByte("0123456789ABCDEF"[lower])'))
E('unmarshal-json-copies', ('jsonvalue.go', '	p := newPool(len(b))\n	ret, err = unmarshalWithIter(p, iter(b), 0)\n	p.release()\n	return', '	return Unmarshal(b)'))
E('numbers-own-text', ('unmarshal.go', 'v.srcByte = it[start:end]', 'v.srcByte = append([]byte(nil), it[start:end]...)'))
E('equal-by-length', ('compare.go', '	if len(left.children.arr) != len(right.children.arr) {', '	if left == right && !hasNaN(left) {\n		return true\n	}\n	if len(left.children.arr) != len(right.children.arr) {'),
  ('compare.go', 'func arrayEqual(', 'func hasNaN(v *V) (res bool) {\n	if v.IsNumber() && isNaN(v) || v.valueType == NotExist || v.valueType == Unknown {\n		return true\n	}\n	for _, c := range v.children.arr {\n		res = res || hasNaN(c)\n	}\n	for _, c := range v.children.object {\n		res = res || hasNaN(c.v)\n	}\n	return\n}\n\nfunc arrayEqual('))
E('iter-goroutine-free-nil', ('iteration.go', '	res := make(map[string]*V, len(v.children.object))\n	for k, c := range v.children.object {\n		res[k] = c.v\n	}\n	return res', '	res := map[string]*V{}\n	v.RangeObjects(func(k string, c *V) bool {\n		res[k] = c\n		return true\n	})\n	return res'))
E('sorted-import', ('import_export.go', '	keys := v.MapKeys()\n', '	keys := v.MapKeys()\n	sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })\n'), ('import_export.go', '	"reflect"\n', '	"reflect"\n	"sort"\n'))
E('arr-capacity', ('option.go', '`re`initialArrayCapacity( *)= \\d+', 'initialArrayCapacity = 1'))
E('options-copied', ('marshal.go', '	opt := combineOptions(opts)\n\n	err = marshalToBuffer', '	o := *combineOptions(opts)\n	opt := &o\n\n	err = marshalToBuffer'))
E('seq-list', ('sort.go', '	keySequence := make(map[string]int, len(v.children.object))\n	for k, child := range v.children.object {\n		keySequence[k] = int(child.id)\n	}\n', '	keySequence := make(map[string]int, len(v.children.object))\n	v.RangeObjectsBySetSequence(func(k string, _ *V) bool {\n		keySequence[k] = len(keySequence)\n		return true\n	})\n'))
E('trim-number', ('get.go', 'bytes.TrimSpace([]byte(v.valueStr))', '[]byte(strings.TrimSpace(v.valueStr))'), ('get.go', '	"bytes"\n', ''))
E('append-only-insert', ('insert_append_delete.go', '	v.children.arr = append(v.children.arr, nil)\n	copy(v.children.arr[pos+1:], v.children.arr[pos:])\n	v.children.arr[pos] = child', '	v.children.arr = append(v.children.arr[:pos:pos], append([]*V{child}, v.children.arr[pos:]...)...)'))

def G(name, *names): R[name] = [e for n in names for e in R[n]]
G('group-a', 'copied-strings', 'caseless-scan', 'stable-sorts', 'defaults-under-mutex', 'bytes-buffer', 'in-place-delete-copy', 'cached-fields', 'growing-indent', 'options-copied')
G('group-b', 'no-value-pool', 'snapshot-in-set-order', 'other-error-texts', 'renumbering', 'range-copy', 'scientific-compare', 'utf8-first', 'sorted-import', 'trim-number', 'append-only-insert', 'digit-table')
G('group-c', 'wide-ids', 'iterative-get', 'unmarshal-json-copies', 'numbers-own-text', 'equal-by-length', 'iter-goroutine-free-nil', 'arr-capacity', 'seq-list')

for name, edits in R.items():
    if ONLY and name not in ONLY: continue
    d = tempfile.mkdtemp(prefix='refac-', dir='/tmp')
    try:
        subprocess.check_call(['git', 'clone', '-q', '/repo', d + '/repo'])
        for f, old, new in edits:
            p = d + '/repo/' + f; s = open(p).read()
            n = re.sub(old[4:], lambda m: new, s) if old.startswith('`re`') else s.replace(old, new)
            if n == s: print(name, 'NO MATCH', f, old[:50]); break
            open(p, 'w').write(n)
        else:
            env = dict(os.environ, HOME='/root', PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'], GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local')
            subprocess.call('gofmt -w *.go internal/*/*.go', shell=True, cwd=d + '/repo', env=env)
            r = subprocess.run('go build ./... && go test ./... 2>&1 | tail -30', shell=True, cwd=d + '/repo', env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            o = r.stdout.decode()
            df = subprocess.check_output(['git', 'diff', '--', '.', ':!go.mod', ':!go.sum'], cwd=d + '/repo')
            open(OUT + '/' + name + '.diff', 'wb').write(df)
            print(name, 'BAD ' + o[-800:] if r.returncode or 'FAIL' in o else 'ok', flush=True)
    finally: shutil.rmtree(d)
