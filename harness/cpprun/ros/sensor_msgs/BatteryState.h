#ifndef MC_BATTERY_H
#define MC_BATTERY_H
#include "mc_msgs.h"
namespace sensor_msgs
{
  struct BatteryState
  {
    float percentage = 0;
    using Ptr = std::shared_ptr<BatteryState>;
    using ConstPtr = std::shared_ptr<const BatteryState>;
  };
  inline std::string mcShow(const BatteryState& m) { return std::to_string((int)(m.percentage * 100 + 0.5)); }
  inline void mcParse(BatteryState& m, const std::string& s) { m.percentage = atoi(s.c_str()) / 100.0f; }
}
template <> struct McType<sensor_msgs::BatteryState> { static std::string name() { return "sensor_msgs::BatteryState"; } };
#endif
