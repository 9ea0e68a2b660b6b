// C20: exception policies of fire_and_forget_task, including those that end the program
#include "nat.h"
#include <asyncpp/fire_and_forget.h>
#include <memory>
#include <optional>
using namespace h;
namespace {
	struct manual_evt {
		std::coroutine_handle<> hd{};
		bool await_ready() { return false; }
		void await_suspend(std::coroutine_handle<> x) { hd = x; }
		void await_resume() {}
	};
	struct plan {
		int seq[6], n, susp, boom; // boom: throw after that many policies; -1 never
	};
	struct handler {
		int* calls;
		tracked t;
		void operator()() const {
			calls[t.get()]++;
			CHECK(std::current_exception() != nullptr, "handler called outside the catch block");
			try {
				throw;
			} catch (trivial_error& e) { CHECK(e.v == 7, "wrong exception"); }
		}
	};
	// 0 handle A, 1 handle B, 2 ignore, 3 terminate, 4 default constructed (empty handler)
	template<class T>
	T body(const plan* p, int* calls, manual_evt* ev, tracked tr) {
		tracked local(tr.get() + 1);
		for (int i = 0; i < p->n; i++) {
			if (p->boom == i) throw trivial_error{7};
			switch (p->seq[i]) {
			case 0:
			case 1:
				co_await asyncpp::exception_policy::handle(handler{calls, tracked(p->seq[i])});
				break;
			case 2: co_await asyncpp::exception_policy::ignore; break;
			case 3: co_await asyncpp::exception_policy::terminate; break;
			case 4: co_await asyncpp::exception_policy{}; break;
			}
			if (p->susp == i) co_await *ev;
		}
		CHECK(local.get() == tr.get() + 1, "local damaged");
		if (p->boom >= 0) throw trivial_error{7};
	}
	template<class T>
	int drive(const plan& p, int* calls) {
		manual_evt ev;
		{
			T t = body<T>(&p, calls, &ev, tracked(3));
			if constexpr (requires { t.start(); }) t.start();
		}
		if (ev.hd) ev.hd.resume();
		return 0;
	}
	void policies() {
		reset_globals();
		plan p;
		p.n = (int)rnd(5);
		for (auto& s : p.seq) s = coin(3) ? (int)rnd(5) : (int)rnd(3);
		p.susp = coin() ? (int)rnd(5) : -1;
		p.boom = coin(4) ? -1 : (int)rnd(6);
		int sel = 4; // selected when the exception escapes
		int upto = p.boom < 0 ? p.n : std::min(p.boom, p.n);
		for (int i = 0; i < upto; i++) sel = p.seq[i];
		bool eager = coin();
		int calls[2] = {0, 0};
		auto go = [&]() { eager ? drive<asyncpp::eager_fire_and_forget_task<>>(p, calls) : drive<asyncpp::fire_and_forget_task<>>(p, calls); };
		vrt_sig(p.n * 1000 + p.boom * 10 + p.susp + eager * 100000);
		for (int i = 0; i < p.n; i++) vrt_sig(p.seq[i]);
		if (p.boom >= 0 && sel >= 3) { // the program must end
			int rc = in_child(go);
			CHECK(rc == 42, "an exception escaped with policy %s selected last but the program did not terminate (child status %d)", sel == 3 ? "terminate" : "none", rc);
			vrt_count("terminations", 1);
		} else {
			go();
			for (int k = 0; k < 2; k++)
				CHECK(calls[k] == (p.boom >= 0 && sel == k ? 1 : 0), "policy selected last: %d, exception %s: handler %d called %d times", sel, p.boom >= 0 ? "thrown" : "not thrown", k, calls[k]);
			vrt_count(p.boom >= 0 ? "exceptions" : "normal", 1);
		}
		if (p.boom >= 0) vrt_nontrivial();
		check_quiescent();
	}
	// handles that live in an object which the coroutine itself keeps alive or destroys
	using lazy = asyncpp::fire_and_forget_task<>;
	struct session {
		tracked t{77};
		std::optional<lazy> task;
		int* gone;
		explicit session(int* g) : gone(g) {}
		~session() { ++*gone; }
	};
	struct counts {
		int ran = 0, done = 0, freed = 0;
	};
	struct free_note {
		counts* c;
		bool active = true;
		explicit free_note(counts* x) : c(x) {}
		free_note(free_note&& o) noexcept : c(o.c), active(std::exchange(o.active, false)) {}
		~free_note() {
			if (active) c->freed++;
		}
	};
	lazy owner(counts* c, std::shared_ptr<session> s, session** raw, manual_evt* before, manual_evt* after, free_note, tracked tr) {
		c->ran++;
		if (before) co_await *before;
		CHECK(s ? s->t.get() == 77 : true, "session damaged");
		s.reset();
		if (raw) delete std::exchange(*raw, nullptr);
		if (after) co_await *after;
		CHECK(tr.get() == 5, "frame damaged");
		c->done++;
	}
	lazy plain(counts* c, free_note, tracked tr) {
		CHECK(tr.get() == 6, "frame damaged");
		c->ran++;
		c->done++;
		co_return;
	}
	void owned() {
		reset_globals();
		counts a, b;
		int gone = 0, how = (int)rnd(6);
		bool sb = coin(), sa = coin(), copies = coin();
		manual_evt before, after;
		vrt_sig(how * 8 + sb * 4 + sa * 2 + copies);
		{
			std::optional<lazy> extra;
			std::optional<lazy> other;
			if (how == 0) { // deleted by the coroutine which its handle starts
				session* raw = new session(&gone);
				raw->task.emplace(owner(&a, nullptr, &raw, sb ? &before : nullptr, sa ? &after : nullptr, free_note(&a), tracked(5)));
				if (copies) extra = raw->task;
				raw->task->start();
				if (sb) {
					CHECK(gone == 0, "session gone early");
					before.hd.resume();
				}
			} else { // kept alive by the coroutine whose handle it holds
				auto s = std::make_shared<session>(&gone);
				session* raw = s.get();
				s->task.emplace(owner(&a, s, nullptr, sb ? &before : nullptr, sa ? &after : nullptr, free_note(&a), tracked(5)));
				s.reset();
				CHECK(gone == 0, "session gone although the coroutine owns it");
				if (copies && how == 1) extra = raw->task;
				other.emplace(plain(&b, free_note(&b), tracked(6)));
				switch (how) {
				case 1:
				case 2:
					raw->task->start();
					if (sb) before.hd.resume();
					break;
				case 3: *raw->task = *other; break;
				case 4: *raw->task = plain(&b, free_note(&b), tracked(6)); break;
				case 5: raw->task.reset(); break;
				}
			}
			CHECK(gone == 1, "session destroyed %d times", gone);
			if (how <= 2) {
				CHECK(a.ran == 1 && a.done == !sa, "task ran %d times and completed %d times", a.ran, a.done);
				if (extra && coin()) extra->start();
				extra.reset();
				if (sa) {
					CHECK(a.freed == 0, "frame destroyed while the task was suspended");
					after.hd.resume();
				}
				CHECK(a.ran == 1 && a.done == 1, "task ran %d times and completed %d times", a.ran, a.done);
			} else
				CHECK(a.ran == 0, "a task that was never started ran");
			CHECK(a.freed == 1, "frame destroyed %d times", a.freed);
			if (other) {
				CHECK(b.freed == (how == 4), "%d frames of the other task destroyed", b.freed);
				if (coin()) {
					other->start();
					CHECK(b.ran == 1 && b.done == 1, "other task ran %d times", b.ran);
				}
				other.reset();
				CHECK(b.freed == 1 + (how == 4), "%d frames of the other task destroyed", b.freed);
			}
			vrt_count(how == 0 ? "deleted_sessions" : how <= 2 ? "released_sessions" : "broken_cycles", 1);
		}
		vrt_nontrivial();
		check_quiescent();
	}
} // namespace
SCENARIOS({"policies", policies, 0}, {"owned", owned, 0})
