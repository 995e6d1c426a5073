// A stand-in for roscpp, as far as generated tests use it: it records what the node does, and ros::spin() delivers
// what a script says.  The words of a script are: d (the initial delay is over), t (the time-out), and
// m:TOPIC:VALUE (a message).  Handles work as in roscpp: a subscription, timer or publisher whose last handle is
// gone does nothing any more.
#ifndef MC_ROS_H
#define MC_ROS_H

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include "mc_msgs.h"

struct McSub { std::string topic; std::function<void(const std::string&)> deliver; };
struct McTimer { double secs; std::function<void()> fire; bool oneshot; int fired = 0; bool stopped = false; };
struct McPub { std::string topic, type; };

struct McRos
{
  std::vector<std::string> script;
  std::vector<std::weak_ptr<McSub>> subs;
  std::vector<std::weak_ptr<McTimer>> timers;
  std::string log;
  bool alone = true, down = false, spun = false;
  void note(const std::string& s)
  {
    if (alone) std::cout << s << std::endl;
    else log += s + "\n";
  }
  void reset() { script.clear(); subs.clear(); timers.clear(); log.clear(); down = spun = false; }
};
inline McRos& mcRos() { static McRos r; return r; }

namespace ros
{
  struct Time { double s = 0; static Time now() { return Time(); } double toSec() const { return s; } };
  struct Duration { double s; explicit Duration(double x = 0) : s(x) {} double toSec() const { return s; } bool sleep() const { return true; } };
  inline Duration operator-(const Time& a, const Time& b) { return Duration(a.s - b.s); }
  inline Time operator+(const Time& a, const Duration& b) { Time t; t.s = a.s + b.s; return t; }
  inline bool operator<(const Duration& a, const Duration& b) { return a.s < b.s; }
  inline bool operator>(const Duration& a, const Duration& b) { return b < a; }
  inline bool operator<(const Time& a, const Time& b) { return a.s < b.s; }
  inline bool operator>(const Time& a, const Time& b) { return b < a; }
  typedef Duration WallDuration;
  typedef Time WallTime;
  struct Rate { double hz; explicit Rate(double x) : hz(x) {} bool sleep() { return true; } void reset() {} };
  typedef Rate WallRate;
  struct TimerEvent { Time last_expected, last_real, current_expected, current_real; };

  class Publisher
  {
  public:
    template <class M> void publish(const M& m) const
    {
      if (!p) { mcRos().note("bad publish on an invalid publisher"); return; }
      if (p->type != McType<M>::name()) mcRos().note("bad publish of " + McType<M>::name() + " on " + p->topic);
      mcRos().note("publish " + p->topic + " " + mcShow(m));
    }
    template <class M> void publish(const std::shared_ptr<M>& m) const { publish(*m); }
    std::string getTopic() const { return p ? p->topic : ""; }
    uint32_t getNumSubscribers() const { return 1; }
    explicit operator bool() const { return (bool)p; }
    void shutdown() { p.reset(); }
    std::shared_ptr<McPub> p;
  };
  class Subscriber
  {
  public:
    std::shared_ptr<McSub> p;
    std::string getTopic() const { return p ? p->topic : ""; }
    uint32_t getNumPublishers() const { return 1; }
    explicit operator bool() const { return (bool)p; }
    void shutdown() { p.reset(); }
  };
  class Timer { public: std::shared_ptr<McTimer> p; void stop() { if (p) p->stopped = true; } void start() { if (p) p->stopped = false; } bool hasStarted() const { return p && !p->stopped; } };

  class NodeHandle
  {
  public:
    NodeHandle(const std::string& = "") {}
    template <class M> Publisher advertise(const std::string& topic, uint32_t, bool = false)
    {
      mcRos().note("advertise " + topic);
      Publisher p;
      p.p = std::make_shared<McPub>(McPub{topic, McType<M>::name()});
      return p;
    }
    template <class M, class T>
    Subscriber subscribe(const std::string& topic, uint32_t, void (T::*f)(const std::shared_ptr<M const>&), T* obj)
    {
      return sub<M>(topic, [f, obj](const std::shared_ptr<M const>& m) { (obj->*f)(m); });
    }
    template <class M, class T>
    Subscriber subscribe(const std::string& topic, uint32_t, void (T::*f)(const M&), T* obj)
    {
      return sub<M>(topic, [f, obj](const std::shared_ptr<M const>& m) { (obj->*f)(*m); });
    }
    template <class M> Subscriber subscribe(const std::string& topic, uint32_t, void (*f)(const std::shared_ptr<M const>&))
    {
      return sub<M>(topic, f);
    }
    template <class M> Subscriber subscribe(const std::string& topic, uint32_t, std::function<void(const std::shared_ptr<M const>&)> f)
    {
      return sub<M>(topic, f);
    }
    template <class T> Timer createTimer(Duration d, void (T::*f)(const TimerEvent&), T* obj, bool oneshot = false, bool autostart = true)
    {
      return createTimer(d, [f, obj](const TimerEvent& e) { (obj->*f)(e); }, oneshot, autostart);
    }
    template <class T> Timer createWallTimer(WallDuration d, void (T::*f)(const TimerEvent&), T* obj, bool oneshot = false, bool autostart = true)
    {
      return createTimer(d, f, obj, oneshot, autostart);
    }
    Timer createTimer(Duration d, std::function<void(const TimerEvent&)> f, bool oneshot = false, bool autostart = true)
    {
      Timer t;
      t.p = std::make_shared<McTimer>();
      t.p->secs = d.s;
      t.p->oneshot = oneshot;
      t.p->stopped = !autostart;
      t.p->fire = [f]() { f(TimerEvent()); };
      mcRos().timers.push_back(t.p);
      return t;
    }
    bool ok() const { return !mcRos().down; }
  private:
    template <class M> Subscriber sub(const std::string& topic, std::function<void(const std::shared_ptr<M const>&)> g)
    {
      mcRos().note("subscribe " + topic);
      Subscriber s;
      s.p = std::make_shared<McSub>();
      s.p->topic = topic;
      s.p->deliver = [g](const std::string& text) {
        auto m = std::make_shared<M>();
        mcParse(*m, text);
        g(m);
      };
      mcRos().subs.push_back(s.p);
      return s;
    }
  };

  inline void init(int&, char**, const std::string& name, uint32_t = 0)
  {
    mcRos().note("init " + name);
    const char* s = getenv("MC_SCRIPT");
    if (mcRos().alone && s)
    {
      std::istringstream in(s);
      for (std::string w; in >> w;) mcRos().script.push_back(w);
    }
  }
  inline void shutdown() { mcRos().note("shutdown"); mcRos().down = true; }
  inline void requestShutdown() { shutdown(); }
  inline bool ok() { return !mcRos().down && !mcRos().spun; }
  inline bool isShuttingDown() { return mcRos().down; }

  // The script goes on after the shutdown: messages may already be in the queue.
  inline void spin()
  {
    mcRos().note("spin");
    auto script = mcRos().script;
    for (size_t i = 0; i < script.size(); i++)
    {
      const std::string& w = script[i];
      mcRos().note("step " + std::to_string(i));
      if (w == "d" || w == "t")
      {
        std::vector<std::shared_ptr<McTimer>> ts;
        for (auto& x : mcRos().timers) if (auto p = x.lock()) ts.push_back(p);
        std::shared_ptr<McTimer> timeout;
        for (auto& p : ts) if (!timeout || p->secs > timeout->secs) timeout = p;
        for (auto& p : ts)
          if ((w == "t") == (p == timeout) && !p->stopped && !(p->oneshot && p->fired > 0)) { p->fired++; p->fire(); }
      }
      else
      {
        size_t c = w.find(':', 2);
        std::string topic = w.substr(2, c - 2), text = w.substr(c + 1);
        std::vector<std::shared_ptr<McSub>> ss;
        for (auto& x : mcRos().subs) if (auto p = x.lock()) ss.push_back(p);
        for (auto& p : ss) if (p->topic == topic) p->deliver(text);
      }
    }
    mcRos().note("spun");
    mcRos().spun = true;
  }
  // The first call delivers everything; then the node is no longer ok().
  inline void spinOnce() { if (!mcRos().spun) spin(); }
}

#define ROS_INFO_STREAM(args) do { std::cerr << "[info] " << args << std::endl; } while (0)
#define ROS_INFO(...) do { fprintf(stderr, "[info] "); fprintf(stderr, __VA_ARGS__); fprintf(stderr, "\n"); } while (0)
#define ROS_WARN_STREAM(args) do { std::cerr << "[warn] " << args << std::endl; } while (0)
#define ROS_WARN(...) do { fprintf(stderr, "[warn] "); fprintf(stderr, __VA_ARGS__); fprintf(stderr, "\n"); } while (0)
#define ROS_ERROR_STREAM(args) do { std::cerr << "[error] " << args << std::endl; } while (0)
#define ROS_ERROR(...) do { fprintf(stderr, "[error] "); fprintf(stderr, __VA_ARGS__); fprintf(stderr, "\n"); } while (0)
#define ROS_DEBUG_STREAM(args) do { std::cerr << "[debug] " << args << std::endl; } while (0)
#define ROS_DEBUG(...) do { fprintf(stderr, "[debug] "); fprintf(stderr, __VA_ARGS__); fprintf(stderr, "\n"); } while (0)
#define ROS_FATAL_STREAM(args) do { std::cerr << "[fatal] " << args << std::endl; } while (0)
#define ROS_FATAL(...) do { fprintf(stderr, "[fatal] "); fprintf(stderr, __VA_ARGS__); fprintf(stderr, "\n"); } while (0)

#endif
