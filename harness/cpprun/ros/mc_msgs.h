// Message types of the stand-in for ROS.
#ifndef MC_MSGS_H
#define MC_MSGS_H
#include <cstdint>
#include <cstdlib>
#include <memory>
#include <string>
template <class M> struct McType;
#define MC_MSG(N, T) \
  namespace std_msgs { struct N { T data = T(); using Ptr = std::shared_ptr<N>; using ConstPtr = std::shared_ptr<const N>; }; } \
  template <> struct McType<std_msgs::N> { static std::string name() { return "std_msgs::" #N; } };
MC_MSG(Bool, bool)
MC_MSG(String, std::string)
MC_MSG(Int32, int32_t)
MC_MSG(UInt32, uint32_t)
MC_MSG(Int64, int64_t)
MC_MSG(Float32, float)
inline std::string mcShow(const std_msgs::String& m) { return m.data; }
inline void mcParse(std_msgs::String& m, const std::string& s) { m.data = s; }
template <class M> std::string mcShow(const M& m) { return std::to_string(m.data); }
template <class M> void mcParse(M& m, const std::string& s) { m.data = atoll(s.c_str()); }
#endif
