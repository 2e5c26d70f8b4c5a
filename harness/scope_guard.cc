/* Drives dcp::ScopeGuard: a program is executed by recursion so that every guard is a local variable whose scope
 * really is left, by return or by an exception */
#include "common.h"
#include "scope_guard.h"
#include <stdexcept>

using dcp::ScopeGuard;
using std::string;
using std::vector;

static vector<std::pair<string, int>> program;
static size_t pos;
static vector<ScopeGuard*> guards;
static vector<int> ran;

struct Oops {};

static void event(string op, string key, int v)
{
	J(op).n(key, v).ns("ran", ran).out();
}

/* Execute until the end of the scope this was called in; every guard made adds a level of recursion */
static void body();

static void with(ScopeGuard& g, string op, string key, int v)
{
	guards.push_back(&g);
	event(op, key, v);
	struct Popper { ~Popper() { guards.pop_back(); } } popper;
	body();
}

static void body()
{
	while (pos < program.size()) {
		auto const p = program[pos++];
		if (p.first == "make") {
			int const id = p.second;
			ScopeGuard g([id]() { ran.push_back(id); });
			with(g, "make", "act", id);
			return;
		} else if (p.first == "move") {
			ScopeGuard g(std::move(*guards.at(p.second - 1)));
			with(g, "move", "i", p.second);
			return;
		} else if (p.first == "cancel") {
			guards.at(p.second - 1)->cancel();
			event("cancel", "i", p.second);
		} else if (p.first == "enter") {
			event("enter", "i", 0);
			size_t const started = pos;
			body();
			/* body() came back at the matching leave, or because the program ended */
			if (pos > started && pos <= program.size() && program[pos - 1].first == "leave") {
				event("leave", "i", 0);
			} else {
				return;
			}
		} else if (p.first == "leave") {
			return;
		} else if (p.first == "return") {
			pos = program.size() + 1;
			return;
		} else if (p.first == "throw") {
			pos = program.size() + 1;
			throw Oops();
		}
	}
}

int main()
{
	return main_loop(
		[&]() { program.clear(); pos = 0; guards.clear(); ran.clear(); },
		[&](string op, Args& a) {
			if (op != "run") {
				program.push_back({op, a.left() ? a.i() : 0});
				return;
			}
			try {
				body();
			} catch (Oops&) {

			}
			event("end", "i", 0);
		});
}
