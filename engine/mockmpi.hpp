#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>
#include <exception>

namespace mpi {

// Everything an MPI implementation / OS scheduler may decide, as one case value.
struct Sched {
  uint64_t seed = 0;      // 0: fully deterministic simplest schedule
  int p_switch = 0;       // 0..100: chance to switch rank at a call boundary
  int p_eager = 100;      // chance that a standard send is buffered
  int p_late = 0;         // chance that a matched message is delivered as late as legal
  int order = 0;          // 0 lowest runnable first, 1 highest first, 2 random, 3 round robin
  int red_order = 0;      // reduction order: 0 rank order, 1 reverse, 2 tree
  bool sync_coll = true;  // rooted collectives synchronise everybody
  // what a message, a byte of it, a collective and a byte of it take on each process (empty: the clock is random)
  std::vector<double> t_msg, t_byte, t_coll, t_cbyte;
};

struct RankExit : std::exception {  // thrown out of exit()/MPI_Abort() in library code
  int status; bool abort;
  RankExit(int s, bool a) : status(s), abort(a) {}
};
struct Cancelled : std::exception {};  // unwinds the other ranks after a failure

struct Result {
  bool failed = false;          // a protocol violation or deadlock
  std::string msg;
  std::vector<int> exit_status; // -1: finished normally
  std::vector<std::string> hygiene;   // non-fatal misuse (overlaps, leaks)
  long messages = 0, switches = 0, late = 0, rendezvous = 0, colls = 0;
  long unmatched = 0, pending_reqs = 0;
  std::vector<int> live;        // per rank: communicators never freed
};

// Runs fn(rank) for 0..np-1 to completion.
Result run(int np, const Sched &s, const std::function<void(int)> &fn);

// every point-to-point message started so far in this run, in world ranks
struct Sent { int from, to; size_t bytes; };
std::vector<Sent> &sent();
long colls(int rank);   // collectives a process has entered
size_t coll_bytes(int rank);   // and the bytes it has given to them

int cur_rank();         // inside run()
int live_comms(int rank);
[[noreturn]] void fail(const std::string &msg);   // record and unwind everything
struct Failed : std::exception {};

}
