"""Clang front end: parses the sources of /repo with clang-18 and indexes the AST (json dump).

Everything below the dump is clang's own resolved AST (implicit conversions, overload resolution, template
instantiation already done), so what gets translated is the code the compiler would compile.
"""
import json, os, re, subprocess, hashlib, shutil, tempfile, concurrent.futures

REPO = os.environ.get("VP_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = 'clang++-18'


class Unsupported(Exception):
    def __init__(self, msg, node=None):
        self.node = node
        super().__init__(msg)


class FrontEndError(Exception):
    pass


def gen_protos(outdir):
    """Generate google/api/*.pb.{h,cc} from the proto files shipped with the system (as /opt/vp/cmake does)."""
    api = os.path.join(outdir, 'google', 'api')
    if os.path.exists(os.path.join(api, 'http.pb.h')) and os.path.exists(os.path.join(api, 'annotations.pb.h')):
        return outdir
    os.makedirs(outdir, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='vpgen', dir=outdir)
    try:
        jar = '/usr/share/java/proto-google-common-protos.jar'
        import zipfile
        with zipfile.ZipFile(jar) as z:
            for n in z.namelist():
                if n.startswith('google/api/') and n.endswith('.proto'):
                    z.extract(n, tmp)
        subprocess.run(['protoc', '-I', tmp, '-I', '/usr/include', '--cpp_out=' + outdir,
                        'google/api/http.proto', 'google/api/annotations.proto'], cwd=tmp, check=True,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    finally:
        shutil.rmtree(tmp)
    return outdir


def build_dir():
    d = os.environ.get('VP_BUILD', os.path.join(VERIF, 'build'))
    os.makedirs(d, exist_ok=True)
    return d


def cxx_flags(stubs=False):
    gen = gen_protos(os.path.join(build_dir(), 'gen'))
    f = ['-std=c++20', '-I' + REPO + '/src/include', '-I' + REPO + '/src/include/grpc_transcoding', '-I' + gen]
    if stubs:
        f = ['-std=c++20', '-I' + os.path.join(VERIF, 'stubs')] + f[1:]
    return f


# translation units: name -> (text or source path, uses stubs)
TUS = {
    'percent_encoding': ('#include "grpc_transcoding/percent_encoding.h"\n', False),
    'http_template': ('#include "%s/src/http_template.cc"\n', False),
    'path_matcher_node': ('#include "%s/src/path_matcher_node.cc"\n', False),
    'path_matcher': ('''#include "grpc_transcoding/path_matcher.h"
#include "grpc_transcoding/path_matcher_utility.h"
struct VpMethod;
namespace google{namespace grpc{namespace transcoding{
template class PathMatcher<const VpMethod*>;
template class PathMatcherBuilder<const VpMethod*>;
template bool PathMatcherUtility::RegisterByHttpRule<const VpMethod*>(PathMatcherBuilder<const VpMethod*>&, const google::api::HttpRule&, const std::unordered_set<std::string>&, const VpMethod* const&);
template bool PathMatcherUtility::RegisterByHttpRule<const VpMethod*>(PathMatcherBuilder<const VpMethod*>&, const google::api::HttpRule&, const VpMethod* const&);
}}}
''', False),
    'message_reader': ('#include "%s/src/message_reader.cc"\n', False),
    'message_stream': ('#include "%s/src/message_stream.cc"\n', False),
    'prefix_writer': ('#include "%s/src/prefix_writer.cc"\n', True),
    'request_weaver': ('#include "%s/src/request_weaver.cc"\n', True),
    'request_message_translator': ('#include "%s/src/request_message_translator.cc"\n', True),
    'request_stream_translator': ('#include "%s/src/request_stream_translator.cc"\n', True),
    'json_request_translator': ('#include "%s/src/json_request_translator.cc"\n', True),
    'response_to_json_translator': ('#include "%s/src/response_to_json_translator.cc"\n', True),
    'type_helper': ('''#include "%s/src/type_helper.cc"
template google::grpc::transcoding::TypeHelper::TypeHelper(const std::vector<google::protobuf::Type>&, const std::vector<google::protobuf::Enum>&);
''', True),
    'status_error_listener': ('#include "%s/src/status_error_listener.cc"\n', True),
}


def dump_ast(name):
    text, stubs = TUS[name]
    if '%s' in text:
        text = text % REPO
    p = subprocess.run([CLANG] + cxx_flags(stubs) + ['-fsyntax-only', '-w', '-x', 'c++', '-Xclang', '-ast-dump=json',
                       '-Xclang', '-ast-dump-filter=grpc::transcoding', '-'], input=text.encode(),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
    if p.returncode != 0:
        raise FrontEndError('clang failed on %s:\n%s' % (name, p.stderr.decode()[-3000:]))
    return p.stdout.decode()


def _load(s):
    d = json.JSONDecoder()
    i, out, n = 0, [], len(s)
    while True:
        while i < n and s[i].isspace():
            i += 1
        if i >= n:
            return out
        o, i = d.raw_decode(s, i)
        out.append(o)


class Fn:
    """A function definition in some TU."""
    def __init__(self, tu, node, qual, cls):
        self.tu, self.node, self.qual, self.cls = tu, node, qual, cls
        inner = node.get('inner', [])
        self.params = [c for c in inner if c['kind'] == 'ParmVarDecl']
        self.body = next((c for c in inner if c['kind'] == 'CompoundStmt'), None)
        self.inits = [c for c in inner if c['kind'] == 'CXXCtorInitializer']
        self.kind = node['kind']
        qt = node['type']['qualType']
        self.is_const = bool(re.search(r'\)\s*const\b', qt))
        self.name = node.get('name', '')
        self.rettype = qt[:qt.index('(')].strip() if '(' in qt else qt
        self.line = node['loc'].get('line') if 'loc' in node else None

    @property
    def static(self):
        if self.cls is None or self.node.get('storageClass') == 'static':
            return True
        d, n = self.node, 0
        while d is not None and d.get('previousDecl') and n < 10:
            d = self.tu.by_id.get(d['previousDecl'])
            if d is not None and d.get('storageClass') == 'static':
                return True
            n += 1
        return False

    @property
    def sig(self):
        return '%s(%s)' % (self.qual, ', '.join(p['type']['qualType'] for p in self.params))


class Cls:
    def __init__(self, tu, node, qual):
        self.tu, self.node, self.qual = tu, node, qual
        self.name = node.get('name')
        self.fields = []  # (name, type node, id)
        self.bases = [b['type']['qualType'] for b in node.get('bases', [])]
        for c in node.get('inner', []):
            if c['kind'] == 'FieldDecl':
                self.fields.append((c.get('name'), c['type'], c['id'], c))


class TU:
    def __init__(self, name, text=None):
        self.name = name
        self.roots = _load(text if text is not None else dump_ast(name))
        self.by_id = {}
        self.fns = []        # Fn with body
        self.fn_by_id = {}   # decl id -> Fn (through redeclarations)
        self.cls_by_qual = {}
        self.cls_by_id = {}
        self.aliases = {}    # alias template name -> (parameters, type string)
        self.typedefs = {}   # simple & qualified name -> type string
        self.vars = {}       # qualified name -> VarDecl with init
        self.enums = {}      # enumerator id -> value; 
        self.enum_names = set()
        self._line = 0
        self._file = ''
        for r in self.roots:
            self._fix_lines(r)
        self._prev = {}
        for r in self.roots:
            self._index(r, [], None)
        # link redeclarations
        for i, f in list(self.fn_by_id.items()):
            pass
        changed = True
        # map any decl id to the Fn with body
        alias = {}
        for i, n in self.by_id.items():
            if n.get('kind') in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl') and 'previousDecl' in n:
                alias[i] = n['previousDecl']

        def root(i):
            seen = set()
            while i in alias and i not in seen:
                seen.add(i)
                i = alias[i]
            return i
        byroot = {}
        for f in self.fns:
            byroot[root(f.node['id'])] = f
        for i, n in self.by_id.items():
            if n.get('kind') in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
                r = root(i)
                if r in byroot:
                    self.fn_by_id[i] = byroot[r]

    def _fix_lines(self, n):
        # the json dump omits line/file when unchanged since the previous location printed
        def fix(loc):
            if not isinstance(loc, dict):
                return
            for k in ('spellingLoc', 'expansionLoc'):
                if k in loc:
                    fix(loc[k])
            if 'offset' in loc:
                if 'file' in loc:
                    self._file = loc['file']
                else:
                    loc['file'] = self._file
                if 'line' in loc:
                    self._line = loc['line']
                else:
                    loc['line'] = self._line
        if 'loc' in n:
            fix(n['loc'])
        if 'range' in n:
            fix(n['range'].get('begin'))
            fix(n['range'].get('end'))
        for c in n.get('inner', []):
            if isinstance(c, dict):
                self._fix_lines(c)

    def _index(self, n, quals, cls):
        k = n.get('kind')
        if k is None:
            return
        if 'id' in n:
            self.by_id[n['id']] = n
        if k == 'NamespaceDecl':
            q = quals + ([n['name']] if n.get('name') and n['name'] != 'transcoding' else [])
            for c in n.get('inner', []):
                self._index(c, q, None)
            return
        if k in ('ClassTemplateDecl', 'FunctionTemplateDecl', 'TypeAliasTemplateDecl', 'VarTemplateDecl'):
            first = True
            if k == 'TypeAliasTemplateDecl':
                ps = [c.get('name') for c in n.get('inner', []) if c['kind'] == 'TemplateTypeParmDecl']
                al = [c for c in n.get('inner', []) if c['kind'] == 'TypeAliasDecl']
                if al:
                    self.aliases[n['name']] = (ps, al[0]['type']['qualType'])
                return
            for c in n.get('inner', []):
                # skip the uninstantiated pattern (its body is dependent)
                if k == 'ClassTemplateDecl' and c.get('kind') == 'CXXRecordDecl':
                    self._index_ids(c)
                    continue
                if k == 'FunctionTemplateDecl' and first and c.get('kind') in ('FunctionDecl', 'CXXMethodDecl'):
                    first = False
                    self._index_ids(c)
                    continue
                self._index(c, quals, cls)
            return
        if k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
            name = n.get('name', '')
            if not n.get('completeDefinition') and not any(c.get('kind') == 'FieldDecl' for c in n.get('inner', [])):
                for c in n.get('inner', []):
                    self._index(c, quals + [name], None)
                return
            q = '::'.join(quals + [name])
            c_ = Cls(self, n, q)
            self.cls_by_qual.setdefault(q, c_)
            self.cls_by_id[n['id']] = c_
            for c in n.get('inner', []):
                self._index(c, quals + [name], c_)
            return
        if k == 'EnumDecl':
            self.enum_names.add('::'.join(quals + [n.get('name', '')]))
            v = -1
            for c in n.get('inner', []):
                if c['kind'] != 'EnumConstantDecl':
                    continue
                self.by_id[c['id']] = c
                val = self._const(c)
                v = val if val is not None else v + 1
                self.enums[c['id']] = v
            return
        if k in ('TypedefDecl', 'TypeAliasDecl'):
            t = n['type']
            self.typedefs[n['name']] = t.get('desugaredQualType', t['qualType'])
            return
        if k == 'VarDecl':
            q = '::'.join(quals + [n['name']])
            pc = n.get('parentDeclContextId')
            if pc and pc in self.cls_by_id:
                q = self.cls_by_id[pc].qual + '::' + n['name']
            elif cls is not None:
                q = cls.qual + '::' + n['name']
            n['_qual'] = q
            if n.get('inner'):
                self.vars[q] = n
            return
        if k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
            pc = n.get('parentDeclContextId')
            c_ = cls
            if pc and pc in self.cls_by_id:
                c_ = self.cls_by_id[pc]
            # out-of-line definition: class found through previousDecl
            pd = n.get('previousDecl')
            if pd and self.by_id.get(pd, {}).get('_cls') is not None:
                c_ = self.by_id[pd]['_cls']
            n['_cls'] = c_
            q = (c_.qual + '::' if c_ is not None else ('::'.join(quals) + '::' if quals else '')) + n.get('name', '')
            n['_qual'] = q
            if any(c.get('kind') == 'CompoundStmt' for c in n.get('inner', [])) or \
                    (k == 'CXXConstructorDecl' and any(c.get('kind') == 'CXXCtorInitializer' for c in n.get('inner', []))):
                f = Fn(self, n, q, c_)
                self.fns.append(f)
                self.fn_by_id[n['id']] = f
            for c in n.get('inner', []):
                self._index_ids(c)
            return
        if k == 'FieldDecl':
            n['_cls'] = cls
            return
        for c in n.get('inner', []):
            if isinstance(c, dict):
                self._index(c, quals, cls)

    def _index_ids(self, n):
        if isinstance(n, dict):
            if 'id' in n:
                self.by_id.setdefault(n['id'], n)
            for c in n.get('inner', []):
                self._index_ids(c)

    def _const(self, n):
        for c in n.get('inner', []):
            if 'value' in c and c.get('kind') in ('ConstantExpr', 'IntegerLiteral'):
                return int(c['value'])
            v = self._const(c) if isinstance(c, dict) else None
            if v is not None:
                return v
        return None


class Program:
    """All TUs needed by a check."""
    def __init__(self, names):
        self.tus = {}
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            texts = dict(zip(names, ex.map(dump_ast, names)))
        for n in names:
            self.tus[n] = TU(n, texts[n])
        self.fns = {}
        for t in self.tus.values():
            for f in t.fns:
                self.fns.setdefault(f.qual, []).append(f)

    def find(self, qual):
        """definitions with that qualified name, one per distinct signature"""
        out, seen = [], set()
        for f in self.fns.get(qual, []):
            if f.sig not in seen:
                seen.add(f.sig)
                out.append(f)
        return out

    def var(self, qual):
        for t in self.tus.values():
            if qual in t.vars:
                return t, t.vars[qual]
        return None

    def cls(self, qual):
        for t in self.tus.values():
            if qual in t.cls_by_qual:
                return t.cls_by_qual[qual]
        return None


if __name__ == '__main__':
    import sys, time
    t = time.time()
    p = Program(sys.argv[1:] or ['percent_encoding', 'http_template', 'path_matcher_node', 'path_matcher', 'message_reader', 'message_stream'])
    for q, fs in sorted(p.fns.items()):
        for f in fs:
            print(f.tu.name, f.sig, f.kind, f.line, 'const' if f.is_const else '')
    for tu in p.tus.values():
        for q, c in tu.cls_by_qual.items():
            print(tu.name, 'class', q, [(x[0], x[1]['qualType']) for x in c.fields])
        print(tu.vars.keys(), tu.typedefs, tu.enum_names)
    print(time.time() - t)
