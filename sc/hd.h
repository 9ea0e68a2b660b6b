// Dispatchers for scenarios.
#pragma once
#include "h.h"
#include <asyncpp/dispatcher.h>
#include <condition_variable>
#include <deque>
#include <mutex>

namespace h {
	// dispatcher with its own threads
	class pump : public asyncpp::dispatcher {
		std::mutex m_mtx;
		std::condition_variable m_cv;
		std::deque<std::function<void()>> m_q;
		bool m_stop = false, m_inline = false;
		std::vector<std::thread> m_threads;

	public:
		int pushed = 0;
		explicit pump(int n = 1) {
			m_threads.reserve(n);
			for (int i = 0; i < n; i++)
				m_threads.emplace_back([this]() {
					auto old = dispatcher::current(this);
					std::unique_lock lck(m_mtx);
					while (true) {
						if (!m_q.empty()) {
							auto fn = std::move(m_q.front());
							m_q.pop_front();
							lck.unlock();
							fn();
							fn = nullptr;
							lck.lock();
						} else if (m_stop)
							break;
						else
							m_cv.wait(lck);
					}
					dispatcher::current(old);
				});
		}
		~pump() { stop(); }
		void stop() { // runs everything queued, then joins; later pushes run inline
			if (m_inline) return;
			{
				std::lock_guard lck(m_mtx);
				m_stop = true;
				m_cv.notify_all();
			}
			for (auto& t : m_threads) t.join();
			m_threads.clear();
			std::deque<std::function<void()>> late;
			{
				std::lock_guard lck(m_mtx);
				m_inline = true;
				late.swap(m_q);
			}
			for (auto& fn : late) {
				auto old = dispatcher::current(this);
				fn();
				dispatcher::current(old);
			}
		}
		void push(std::function<void()> fn) override {
			std::unique_lock lck(m_mtx);
			pushed++;
			if (m_inline) {
				lck.unlock();
				auto old = dispatcher::current(this);
				fn();
				dispatcher::current(old);
				return;
			}
			m_q.push_back(std::move(fn));
			m_cv.notify_one();
		}
	};
	// dispatcher run by hand on the calling thread
	class manual : public asyncpp::dispatcher {
		std::mutex m_mtx;
		std::deque<std::function<void()>> m_q;

	public:
		int id = 0;
		int pushed = 0;
		explicit manual(int i = 0) : id(i) {}
		void push(std::function<void()> fn) override {
			std::lock_guard lck(m_mtx);
			pushed++;
			m_q.push_back(std::move(fn));
		}
		bool run_one() {
			std::function<void()> fn;
			{
				std::lock_guard lck(m_mtx);
				if (m_q.empty()) return false;
				fn = std::move(m_q.front());
				m_q.pop_front();
			}
			auto old = dispatcher::current(this);
			fn();
			dispatcher::current(old);
			return true;
		}
		int run_all() {
			int n = 0;
			while (run_one()) n++;
			return n;
		}
	};
	// make d current for the scope
	struct as_current : asyncpp::dispatcher {
		asyncpp::dispatcher* old;
		explicit as_current(asyncpp::dispatcher* d) : old(dispatcher::current(d)) {}
		~as_current() { dispatcher::current(old); }
		void push(std::function<void()>) override {}
	};
	// awaitable that reschedules the coroutine on a pump (harness only)
	struct hop {
		asyncpp::dispatcher* d;
		bool await_ready() const noexcept { return d == nullptr; }
		void await_suspend(std::coroutine_handle<> hdl) const {
			d->push([hdl]() mutable { hdl.resume(); });
		}
		void await_resume() const noexcept {}
	};
} // namespace h
