// Deterministic simulator: public interface used by the harnesses.
#pragma once
#include <cstdint>
#include <cstddef>

namespace sim {
	// ---- per-run configuration (derived from the run seed only) -------------------------------
	struct Knobs {
		int      strategy;        // 0 random walk, 1 priority (PCT), 2 run-to-block, 3 sync-only random
		double   p_access;        // probability of a preemption at an instrumented memory access
		double   p_sync;          // probability of a switch at a synchronisation operation
		double   p_spurious;      // spurious wake-up probability per condition wait
		double   p_stall;         // probability that a thread is stalled at a synchronisation operation
		double   p_clockjump;     // probability per clock read of a forward jump
		double   p_allocfail;     // probability per eligible allocation
		double   p_io;            // probability per eligible file operation
		uint64_t ns_per_event;    // virtual time charged per event
		int      ncpu;            // what hardware_concurrency() reports
		bool     fp_default;      // new threads start with default MXCSR (else inherit)
		uint8_t  fill;            // pattern of fresh heap memory
		uint64_t max_chaos;       // events after which scheduling becomes fair and fault free
		uint64_t max_events;      // hard step bound (progress violation after it)
		uint64_t max_allocfail;   // at most so many allocation failures per run
		uint64_t max_iofault;
		bool     fail_throwing;   // allocation failures also hit plain (throwing) operator new
		size_t   throw_min;       // ... of at least this many bytes (small control objects excluded)
		bool     fail_malloc;     // allocation failures also hit plain malloc/calloc/realloc
		double   p_sysfail;       // probability per eligible system call (thread priorities)
		uint64_t max_sysfail;
	};
	Knobs& knobs();

	// ---- workload randomness (main fiber only) --------------------------------------------------
	uint64_t rnd();
	inline uint64_t rnd(uint64_t n) { return n ? rnd() % n : 0; }           // [0,n)
	inline int64_t rng(int64_t a, int64_t b) { return a + (int64_t)(rnd() % (uint64_t)(b - a + 1)); } // [a,b]
	inline bool chance(double p) { return (rnd() >> 11) * (1.0 / 9007199254740992.0) < p; }
	bool keep_op();          // call once per generated operation, after drawing its parameters

	// ---- reporting ------------------------------------------------------------------------------
	[[noreturn]] void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
	void state(uint64_t v); // what the scenario adds to the measure of distinct executions
	void note(uint64_t v);                       // fold into the outcome hash of the run
	void note_bytes(const void* p, size_t n);
	void probe(const char* name, uint64_t n = 1);// reach counter
	void context(const char* fmt, ...);          // description of the operation under way (for reports)
	int  self();                                 // simulated thread id, 0 = scenario
	uint64_t events();
	uint64_t now_ns();
	void spend(uint64_t ns);                     // the current code takes this much virtual time
	int  live_threads();                         // simulated threads that have not ended, besides the scenario
	uint64_t live_blocks(); uint64_t live_bytes();
	uint64_t alloc_failures(); uint64_t io_faults();
	unsigned mxcsr();

	// ---- guards ---------------------------------------------------------------------------------
	// Oracle: code of the harness itself; real heap, no preemption, no faults, no access checks
	struct Oracle { Oracle(); ~Oracle(); };
	// Faults: allocation / io faults are only injected while enabled
	void alloc_faults(bool on); void io_faults(bool on); void sys_faults(bool on); uint64_t sys_failures();
	int thread_priority(int tid); unsigned long priority_class(); void set_priority(int tid, int prio, unsigned long cls); int threads();
	void yield();            // explicit scheduling point

	// ---- simulated files ------------------------------------------------------------------------
	void file_put(const char* name, const void* data, size_t n);
	bool file_get(const char* name, const void** data, size_t* n);
	int  open_files();
	enum { IO_OPENFAIL = 1, IO_EOF = 2, IO_EIO = 3, IO_SHORT = 4, IO_WRITEERR = 5, IO_SEEKERR = 6 };
	void thread_name(const char*);

	// ---- scenarios ------------------------------------------------------------------------------
	struct Scenario {
		const char* name; void (*fn)();
		void (*tune)(Knobs&);    // adjust per-run knobs
	};
	struct Registrar { Registrar(const char* prop, const char* name, void (*fn)(), void (*tune)(Knobs&) = nullptr, int weight = 1); };
	#define SIM_SCENARIO(prop, name, fn, tune, weight) static ::sim::Registrar reg_##prop##_##name(#prop, #name, fn, tune, weight);
}
