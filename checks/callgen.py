"""Random services, and random calls of their methods."""
from checks.c17 import Gen, MEMBERS, NUMS, cstr

NAMES = ['a', 'b', 'get', 'set', 'sub', 'params', 'Ab', 'z_9', 'methods', 'a_name_that_is_too_long_for_the_small_string_optimisation_of_strings', 'x', 'y', 'id', 'result', 'v-1']


class Service(Gen):
    def plain_param(self):
        k = self.rng.choice(['num', 'num', 'str', 'str', 'bool', 'opt'])
        if k == 'str':
            return 'std::string', ''
        if k == 'bool':
            return 'bool', ' | SerialisationFlags::OMIT_FALSE'
        if k == 'opt':
            return 'Optional<%s>' % self.rng.choice(NUMS), ' | SerialisationFlags::EMPTY_IS_NULL'
        return self.rng.choice(NUMS), ''

    def signature(self):
        """(plain?, result type, [(name, C++ type, flags)])"""
        r = self.rng
        names = r.sample([m for m in MEMBERS], r.choice([0, 1, 1, 2, 3, 5]))
        if r.random() < .35:
            return True, r.choice(['void', 'void', 'void', 'int', 'std::string']), [(n,) + self.plain_param() for n in names]
        params = []
        for n in names:
            if r.random() < .3:
                params.append((n,) + self.plain_param())
            else:
                params.append((n, self.type()['c'], ''))
        return False, 'void' if r.random() < .2 else self.type()['c'], params

    def program(self):
        r = self.rng
        types, code = [], []
        self.methods = []     # (formable?, has async?)
        asks = []
        for i in range(r.randint(1, 4)):
            name = 'T%d' % i
            members = [(n, self.type()) for n in r.sample(MEMBERS, r.choice([1, 1, 2, 3, 6]))]
            if r.random() < .25:
                members.append(('kids', {'c': 'std::vector<%s>' % name}))
            types.append('struct %s;\nnamespace made { inline void fill(::%s& v, Rng& rng, int depth); }\ninline std::string dump(const %s& v);' % (name, name, name))
            types.append('struct %s : Serialisable<%s> {\n%s};' % (name, name, ''.join('\t%s m%d = key<%s>;\n' % (t['c'], j, cstr(n)) for j, (n, t) in enumerate(members))))
            code.append('inline std::string dump(const %s& v) { return members({%s}%s); }' % (name, ', '.join(cstr(n) for n, _ in members), ''.join(', v.m%d' % j for j in range(len(members)))))
            code.append('namespace made { inline void fill(::%s& v, Rng& rng, int depth) { %s} }' % (name, ''.join('fill(v.m%d, rng, depth + 1); ' % j for j in range(len(members)))))
            self.types.append((name, members))

        def function(path, self_type=None):
            plain, ret, ps = self.signature()
            args = ', '.join((['%s* self' % self_type] if self_type else []) + ['%s p%d = name(%s)%s' % (c, i, cstr(n), f) for i, (n, c, f) in enumerate(ps)])
            body = '%srun<%s>(%s, %s, {%s}%s);' % ('return ' if ret != 'void' else '', ret, cstr(path), 'self ? self->tag : -2' if self_type else '-1',
                                                   ', '.join(cstr(n) for n, _, _ in ps), ''.join(', p%d' % i for i in range(len(ps))))
            return plain and ret == 'void', ret, ps, args, body

        def asking(place, path, tag, formable, ps, sync_only):
            structured = any(c.startswith(('std::vector', 'std::array', 'std::map', 'T')) for _, c, _ in ps)
            self.methods.append((formable or structured, not sync_only))   # Forms can't contain structures, clients refuse to write them
            asks.append('\t\tcase %d: {\n%s\t\t\thow.formable = %s;\n\t\t\taskWith(how, %s, %s, %s, {%s}%s);\n\t\t\tbreak;\n\t\t}' % (
                len(self.methods) - 1, ''.join('\t\t\t%s p%d{};\n\t\t\tmade::fill(p%d, rng, 0);\n' % (c, i, i) for i, (_, c, _) in enumerate(ps)),
                'true' if formable else 'false', place, cstr(path), tag, ', '.join(cstr(n) for n, _, _ in ps), ''.join(', p%d' % i for i in range(len(ps)))))

        if r.random() < .12:
            # a function alone
            formable, ret, ps, args, body = function('')
            asking('function', '', '-1', formable, ps, False)
            api = 'RpcStatelessLambda<[] (%s) { %s }> function;\n\tApi(bool) {}\n\tIRemoteCallable& callable() { return function; }' % (args, body)
        else:
            objects, lone = [], r.random() < .2
            services = []
            spots = r.sample(NAMES, 4)
            for k in range(1 if lone else r.randint(1, 3)):
                name = 'O%d' % k
                under = '' if lone else 'sub' if k == 2 else ''
                prefix = '' if lone else (spots[3] + '.' if under else '') + spots[k] + '.'
                lines = ['\tint tag = -3;\n']
                for j, n in enumerate(r.sample(NAMES, r.randint(1, 6))):
                    own = r.random() < .4
                    formable, ret, ps, args, body = function(prefix + n, name if own else None)
                    if r.random() < .3:
                        lines.append('\tstd::string between%d;\n' % j)
                    lines.append('\tRpcMember<[] (%s) { %s }> c%d = child<%s>;\n' % (args, body, j, cstr(n)))
                    asking('o%d.c%d' % (k, j), prefix + n, str(k) if own else '-1', formable, ps, False)
                services.append('struct %s : RpcObject<%s> {\n%s};' % (name, name, ''.join(lines)))
                objects.append((k, under))
            init = ''.join('\t\to%d.tag = %d;\n' % (k, k) for k, _ in objects)
            if lone:
                api = 'O0 o0;\n\tApi(bool) {\n%s\t}\n\tIRemoteCallable& callable() { return o0; }' % init
            else:
                fields = ''.join('\tO%d o%d;\n' % (k, k) for k, _ in objects) + '\tDynamicRpcObject sub, root;\n'
                top = ''
                if r.random() < .6:
                    formable, ret, ps, args, body = function('top')
                    fields += '\tTypedRpcLambdaHolder<%s(%s)> top = [] (%s) { %s };\n' % (ret, ', '.join(c for _, c, _ in ps), args, body)
                    asking('top', 'top', '-1', formable, ps, True)
                    top = '\t\troot.add("top", RpcLambdaHolder::nonOwning(*top));\n'
                adds = []
                for k, under in objects:
                    adds.append('\t\t%s.add(%s, RpcLambdaHolder::nonOwning(o%d));\n' % (under or 'root', cstr(spots[k]), k))
                if any(u for _, u in objects):
                    adds.append('\t\troot.add(%s, RpcLambdaHolder::nonOwning(sub));\n' % cstr(spots[3]))
                if top:
                    adds.insert(r.randint(0, len(adds)), top)
                api = fields.strip() + '\n\tApi(bool) {\n%s%s\t}\n\tIRemoteCallable& callable() { return root; }' % (init, ''.join(adds))
            code.append('#else\n' + '\n'.join(services))
        if '#else' not in '\n'.join(code):
            code.append('#else')
        code.append('struct Api {\n\t%s\n\tvoid ask(int method, Ask& how, Rng& rng) {\n\t\tmade::budget = made::tiny ? 15 : 400;\n\t\tswitch (method) {\n%s\n\t\t}\n\t}\n};' % (api, '\n'.join(asks)))
        return '#ifndef CALLS\n' + '\n'.join(types + code) + '\n#endif\n'
