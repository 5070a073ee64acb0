#include "sim.h"
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <sstream>

double Rng::logu(double a, double b) { return exp(uni(log(a), log(b))); }
double Rng::gauss()
{
	double s = 0;
	for (int i = 0; i < 12; i++)
		s += u01();
	return s - 6;
}
uint64_t mix64(uint64_t a, uint64_t b)
{
	Rng r(a ^ (b * 0xD6E8FEB86659FD93ull + 0x2545F4914F6CDD1Dull));
	r.next();
	return r.next();
}
std::string fmt(const char *f, ...)
{
	char buf[4096];
	va_list a;
	va_start(a, f);
	vsnprintf(buf, sizeof buf, f, a);
	va_end(a);
	return buf;
}
std::string Plan::text() const
{
	std::string s = "micropp-sim-plan 1\n";
	s += fmt("prop %s\nseed %llu\n", prop.c_str(), (unsigned long long)seed);
	for (auto &k : knob)
		s += fmt("knob %s %.17g\n", k.first.c_str(), k.second);
	for (auto &c : cfgs) {
		s += fmt("cfg %d %d %d %d %d", c.dim, c.n[0], c.n[1], c.n[2], c.type);
		for (double d : c.mp)
			s += fmt(" %.17g", d);
		s += fmt(" %d %d", c.mt[0], c.mt[1]);
		for (double d : c.par)
			s += fmt(" %.17g", d);
		s += "\n";
	}
	for (auto &o : ops) {
		s += fmt("op %d %c %d %d %d %d", o.id, o.k, o.inst, o.a, o.b, o.tag);
		if (o.k == 'S')
			for (double d : o.e)
				s += fmt(" %.17g", d);
		s += "\n";
	}
	for (auto &f : faults)
		s += fmt("fault %s %d %ld %ld %.17g\n", f.kind.c_str(), f.opid, f.nth, f.len, f.arg);
	for (auto &w : sw)
		s += fmt("switch %ld %d\n", w.edges, w.to);
	return s;
}
static double num(std::istringstream &is)
{
	std::string t;
	is >> t;
	return strtod(t.c_str(), nullptr); // reads nan and inf too
}
bool Plan::parse(const std::string &s, Plan &p)
{
	std::istringstream in(s);
	std::string line;
	if (!std::getline(in, line) || line != "micropp-sim-plan 1")
		return false;
	while (std::getline(in, line)) {
		std::istringstream is(line);
		std::string k;
		is >> k;
		if (k == "prop")
			is >> p.prop;
		else if (k == "seed")
			is >> p.seed;
		else if (k == "knob") {
			std::string n;
			is >> n;
			p.knob[n] = num(is);
		} else if (k == "cfg") {
			Config c;
			is >> c.dim >> c.n[0] >> c.n[1] >> c.n[2] >> c.type;
			for (double &d : c.mp)
				d = num(is);
			is >> c.mt[0] >> c.mt[1];
			for (double &d : c.par)
				d = num(is);
			p.cfgs.push_back(c);
		} else if (k == "op") {
			Op o;
			is >> o.id >> o.k >> o.inst >> o.a >> o.b >> o.tag;
			if (o.k == 'S')
				for (double &d : o.e)
					d = num(is);
			p.ops.push_back(o);
		} else if (k == "fault") {
			Fault f;
			is >> f.kind >> f.opid >> f.nth >> f.len;
			f.arg = num(is);
			p.faults.push_back(f);
		} else if (k == "switch") {
			Switch w;
			is >> w.edges >> w.to;
			p.sw.push_back(w);
		} else if (k.empty() || k[0] == '#')
			continue;
		else
			return false;
	}
	return true;
}
