#pragma once
#include <memory>
#include <tbb/global_control.h>
#include <tbb/info.h>
namespace tbb {
class task_scheduler_init {
  std::unique_ptr<global_control> gc;
public:
  static const int automatic = -1;
  explicit task_scheduler_init(int n = automatic) { initialize(n); }
  void initialize(int n = automatic) {
    gc.reset();
    if (n > 0) gc = std::make_unique<global_control>(global_control::max_allowed_parallelism, (size_t)n);
  }
  void terminate() { gc.reset(); }
  static int default_num_threads() { return (int)info::default_concurrency(); }
};
}
