#pragma once
#include "symx.h"
#include "Framework/WorkerActor.hpp"
#include <Pothos/Framework.hpp>
#include <Pothos/Framework/InputPortImpl.hpp>
#include <Pothos/Framework/OutputPortImpl.hpp>
#include <memory>
#include <functional>
#include <cstring>
using namespace Pothos;
// a block whose work() and label propagation are scripted by the harness
struct B : Block { std::function<void()> w; std::function<void(const InputPort *)> p; unsigned works = 0; B() { setThreadPool(ThreadPool()); } void work() { works++; if (w) w(); } void propagateLabels(const InputPort *i) { if (p) p(i); else Block::propagateLabels(i); } void run() { _actor->workTask(); } void on() { _actor->setActiveStateOn(); } };
static void link(B &s, const std::string &o, B &t, const std::string &i) { s._actor->subscribeInput("add", o, t.input(i)); t._actor->subscribeOutput("add", i, s.output(o)); }
static BufferManager::Sptr mgr(size_t nb, size_t bs) { BufferManagerArgs a; a.numBuffers = nb; a.bufferSize = bs; return BufferManager::make("generic", a); }
static void fill(void *p, size_t n) { sx_bytes(p, n, "data"); }
