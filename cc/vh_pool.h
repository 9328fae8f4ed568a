// In ThreadSanitizer builds the thread pool of the operations is replaced: the
// synchronisation inside the TensorFlow library cannot be seen there.
#ifndef VERIF_VH_POOL_H_
#define VERIF_VH_POOL_H_
// The Abseil logging library is not among the ones installed; glog's or
// TensorFlow's LOG and CHECK stand in for it.
#define ABSL_LOG_LOG_H_
#define ABSL_LOG_CHECK_H_
#include "tensorflow/core/framework/op_kernel.h"
#include "tensorflow/core/lib/core/threadpool.h"
#ifdef VH_TSAN
#include <functional>
#include <mutex>
#include <string>
#include <thread>
#include <vector>
namespace tensorflow {
namespace thread {
class VhThreadPool {
 public:
  VhThreadPool(Env*, const ThreadOptions&, const std::string&, int threads, bool) : threads_(threads < 2 ? 2 : threads > 6 ? 6 : threads) {}
  void Schedule(std::function<void()> f) { work_.push_back(std::move(f)); }
  // Runs what was scheduled, as the pool waits for it when destroyed.
  ~VhThreadPool() {
    std::vector<std::thread> ts;
    for (int k = 0; k < threads_; ++k)
      ts.emplace_back([this, k] {
        for (size_t i = k; i < work_.size(); i += threads_) work_[i]();
      });
    for (auto& t : ts) t.join();
  }

 private:
  int threads_;
  std::vector<std::function<void()>> work_;
};
}  // namespace thread
}  // namespace tensorflow
#define ThreadPool VhThreadPool
#endif
#endif
