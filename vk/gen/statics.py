"""Random programs of several translation units whose global objects use libcwd in their constructors and destructors."""
import random

TYPES = [('int', 'int'), ('char const*', 'char const*'), ('vkt::A', 'vkt::A'), ('vkt::T<vkt::A, 3>', 'vkt::T<vkt::A, 3>'), ('vkt::A const* const*', 'vkt::A const* const*')]


class Unit:
    def __init__(self, k, kind):
        self.k, self.kind = k, kind     # kind: 'exe', 'so' (linked), 'mod' (dlopen)
        self.channels, self.dos, self.items = [], [], []


class Gen:
    def __init__(self, rng):
        self.rng = rng
        self.t = 0

    def text(self):
        self.t += 1
        return 'x%d' % self.t

    def generate(self, kinds):
        self.units = [Unit(k, kind) for k, kind in enumerate(kinds)]
        for u in self.units:
            nch, ndo = self.rng.randrange(0, 3), self.rng.randrange(0, 2) if u.kind != 'mod' else 0
            u.channels = ['ch%c%d' % (97 + u.k, j) for j in range(nch)]
            u.dos = ['do%c%d' % (97 + u.k, j) for j in range(ndo)]
            items = [('ch', c) for c in u.channels] + [('do', d) for d in u.dos] + [('use', 'u%d' % j) for j in range(self.rng.randrange(3, 8))]
            self.rng.shuffle(items)
            u.items = items
        self.all_channels = {}
        for u in self.units:
            for c in u.channels:
                self.all_channels[c] = u

    def visible(self, u):
        """Channels that the unit can name: those of its own link unit, and of libraries it is linked with."""
        return [c for c, v in self.all_channels.items() if v is u or (v.kind == u.kind and u.kind != 'mod') or (v.kind == 'so' and u.kind == 'exe')]

    def dout(self, u, ch, obj=None):
        x = self.text()
        on = 'vk::notice_on' if ch == 'notice' else ch + '_on'
        label = ch.upper()
        if obj:
            return 'vk::event(1); if (%s_on && %s) vk::expect("%s", 0, "%s"); LibcwDout(LIBCWD_DEBUG_CHANNELS, %s, dc::%s, "%s");' % (obj, on, label, x, obj, ch, x)
        return 'vk::event(0); if (%s) vk::expect("%s", 0, "%s"); Dout(dc::%s, "%s");' % (on, label, x, ch, x)

    def op(self, u, where):
        r = self.rng.random()
        chs = self.visible(u)
        ch = self.rng.choice(chs) if chs and self.rng.random() < .6 else 'notice'
        alive = '' if ch == 'notice' else 'if (%s_alive) ' % ch
        on = 'vk::notice_on' if ch == 'notice' else ch + '_on'
        if r < .3:
            return '%s{ %s }' % (alive, self.dout(u, ch))
        if r < .42 and u.dos:
            d = self.rng.choice(u.dos)
            return 'if (%s_alive) %s{ if (!%s_set) { %s.set_ostream(&vk::sink(), &vk::mutex); %s_set = true; } %s }' % (d, alive, d, d, d, self.dout(u, ch, d))
        if r < .5 and u.dos:
            d = self.rng.choice(u.dos)
            return 'if (%s_alive) { vk::event(2); if (%s_on) %s.off(); else %s.on(); %s_on = !%s_on; }' % (d, d, d, d, d, d)
        if r < .62:
            return '%s{ vk::event(2); if (%s) dc::%s.off(); else dc::%s.on(); %s = !%s; }' % (alive, on, ch, ch, on, on)
        if r < .68:
            return '{ vk::event(3); Debug(libcw_do.off()); Dout(dc::notice, "never"); Debug(libcw_do.on()); }'
        if r < .74:
            a, b = self.text(), self.text()
            return '{ vk::event(4); if (vk::notice_on) { vk::expect("NOTICE", 4, "%s"); vk::expect("NOTICE", 0, "%s7"); } Dout(dc::notice, "%s" << [] { Dout(dc::notice, "%s"); return 7; }()); }' % (a, b, b, a)
        if r < .79:
            a, b = self.text(), self.text()
            return '{ vk::event(5); if (vk::notice_on) vk::expect("NOTICE", 0, "%s%s"); Dout(dc::notice|continued_cf, "%s"); Dout(dc::finish, "%s"); }' % (a, b, a, b)
        if r < .86:
            t, n = self.rng.choice(TYPES)
            return 'vk::type_check<%s>("%s");' % (t, n)
        if r < .91:
            return '{ vk::event(7); int n = 0; ForAllDebugChannels(if (!std::strncmp(debugChannel.get_label(), "CH", 2)) ++n); if (n != vk::channels) vk::fail("channels", (std::to_string(n) + " instead of " + std::to_string(vk::channels)).c_str()); }'
        if r < .94:
            return '%s{ vk::event(8); if (libcwd::find_channel("%s") != &dc::%s) vk::fail("find_channel", "%s"); }' % (alive, ch, ch, ch)
        if r < .965 and u.dos:
            # Before its constructor a debug object may be forced on.
            d = self.rng.choice(u.dos)
            x = self.text()
            return ('{ vk::event(9); libcwd::DebugObject::OnOffState st; %s.force_on(st); if (!%s_set) { %s.set_ostream(&vk::sink(), &vk::mutex); %s_set = true; } '
                    'if (vk::notice_on) vk::expect("NOTICE", 0, "%s"); LibcwDout(LIBCWD_DEBUG_CHANNELS, %s, dc::notice, "%s"); %s.restore(st); }') % (d, d, d, d, x, d, x, d)
        if r < .977 and where != 'ctor':
            x = self.text()
            return '{ vk::event(10); vk::expect("NOTICE", 0, "%s"); std::thread t([] { Debug(libcw_do.on()); Debug(dc::notice.on()); Dout(dc::notice, "%s"); }); t.join(); }' % (x, x)
        if r < .985:
            n = self.text()
            return '{ vk::event(11); static L l_%s([] { %s }); }' % (n, self.dout(u, 'notice'))
        return '{ vk::event(12); std::atexit([] { vk::ready(); %s }); }' % self.dout(u, 'notice') if u.kind == 'exe' and where != 'dtor' else ';'

    def ops(self, u, where, n=None):
        return ' '.join(self.op(u, where) for _ in range(n or self.rng.randrange(2, 9)))

    def source(self, u):
        o = ['#include "use.h"', 'namespace vkt { struct A { int a; }; template<typename X, int N> struct T { X x[N]; }; }', 'namespace vk { extern bool notice_on; }',
             'namespace { struct L { void (*f)(); L(void (*f_)()) : f(f_) { f(); } ~L() { f(); } }; }']
        for c in self.visible(u):
            o.append('NAMESPACE_DEBUG_CHANNELS_START extern Channel %s; NAMESPACE_DEBUG_CHANNELS_END extern bool %s_alive, %s_on;' % (c, c, c))
        for c in u.channels:
            o.append('bool %s_alive, %s_on;' % (c, c))
        for d in u.dos:
            o.append('extern libcwd::DebugObject %s; static bool %s_alive, %s_on, %s_set;' % (d, d, d, d))
        # Channels are in scope for the arguments of is_on etc. too.
        body = []
        for kind, name in u.items:
            if kind == 'ch':
                body.append('NAMESPACE_DEBUG_CHANNELS_START Channel %s("%s"); NAMESPACE_DEBUG_CHANNELS_END\nstatic struct Mark_%s { Mark_%s() { %s_alive = true; ++vk::channels; } } mark_%s;' %
                            (name, name.upper(), name, name, name, name))
            elif kind == 'do':
                body.append('libcwd::DebugObject %s;\nstatic struct Mark_%s { Mark_%s() { %s_alive = true; } } mark_%s;' % (name, name, name, name, name))
            else:
                dt = self.rng.random() < .8
                ct = self.rng.random() < .8 or not dt
                body.append('static struct Use_%s {\n  Use_%s()\n  {\n    %s\n  }\n  ~Use_%s()\n  {\n    vk::phase = 2; %s\n  }\n} %s;' %
                            (name, name, ('vk::ready(); Debug(' + self.ops(u, 'ctor') + ');') if ct else '', name, ('vk::ready(); Debug(' + self.ops(u, 'dtor') + ');') if dt else '', name))
        o += body
        if u.kind == 'mod':
            o.append('extern "C" void module_run() { vk::ready(); Debug(%s); }' % self.ops(u, 'main', 3))
        o.append('void run%d() { vk::ready(); Debug(%s); }' % (u.k, self.ops(u, 'main', 5)))
        return '\n'.join(o) + '\n'

    def main(self):
        exe = [u for u in self.units if u.kind == 'exe']
        o = ['#include "use.h"', '#include <dlfcn.h>', 'namespace vk { extern bool notice_on; }']
        o += ['void run%d();' % u.k for u in exe]
        x = self.text()
        o.append('struct TL { TL() { Dout(dc::notice, "%s"); if (vk::notice_on) vk::expect("NOTICE", 0, "%s"); } ~TL() { Dout(dc::notice, "%se"); if (vk::notice_on) vk::expect("NOTICE", 0, "%se"); } };' % (x, x, x, x))
        o.append('int main(int argc, char* argv[])\n{\n  vk::ready();\n  vk::phase = 1;')
        if self.rng.random() < .5:
            o.append('  thread_local TL tl;')
        calls = ['run%d();' % u.k for u in exe]
        self.rng.shuffle(calls)
        mods = '''for (int i = 1; i < argc; ++i) { void* h = dlopen(argv[i], i & 1 ? RTLD_NOW : RTLD_LAZY); if (!h) { vk::fail("dlopen", dlerror()); continue; } ((void(*)())dlsym(h, "module_run"))(); }'''
        calls.insert(self.rng.randrange(len(calls) + 1), mods)
        o += ['  ' + c for c in calls]
        o.append('  %s\n}' % ('std::exit(0);' if self.rng.random() < .5 else 'return 0;'))
        return '\n'.join(o) + '\n'
