// The scheduler of WorkStream in the ThreadSanitizer build. The scheduler of
// TBB is not instrumented, so ThreadSanitizer would not know what it orders.
// This one keeps the contract of dealii::WorkStream::run(): the worker is
// called once per item, in any order and on any thread, with a scratch object
// of its thread and the copy data of its item; the copier is called once per
// item, in the order of the items, by one thread at a time, after the worker.
// Nothing but this is ordered.
#include <atomic>
#include <condition_variable>
#include <mutex>
#include <thread>
#include <vector>

namespace vf_work_stream
{
template <typename Worker, typename Copier, typename Iterator,
          typename ScratchData, typename CopyData>
void run(Iterator const &begin, Iterator const &end, Worker &worker,
         Copier &copier, ScratchData const &sample_scratch_data,
         CopyData const &sample_copy_data)
{
  std::vector<Iterator> items;
  for (Iterator p = begin; p != end; ++p)
    items.push_back(p);
  std::size_t const n = items.size();
  std::vector<CopyData> copy(n, sample_copy_data);
  struct Flag
  {
    std::mutex mutex;
    std::condition_variable changed;
    bool done = false;
  };
  std::vector<Flag> finished(n);
  std::atomic<std::size_t> next(0);
  auto const work = [&]() {
    ScratchData scratch(sample_scratch_data);
    for (;;)
    {
      std::size_t const i = next.fetch_add(1, std::memory_order_relaxed);
      if (i >= n)
        return;
      try
      {
        worker(items[i], scratch, copy[i]);
      }
      catch (std::exception const &exc)
      {
        dealii::Threads::internal::handle_std_exception(exc);
      }
      catch (...)
      {
        dealii::Threads::internal::handle_unknown_exception();
      }
      std::lock_guard<std::mutex> lock(finished[i].mutex);
      finished[i].done = true;
      finished[i].changed.notify_one();
    }
  };
  std::vector<std::thread> threads;
  for (std::size_t t = 0; t < dealii::MultithreadInfo::n_threads() && t < n; ++t)
    threads.emplace_back(work);
  for (std::size_t i = 0; i < n; ++i)
  {
    std::unique_lock<std::mutex> lock(finished[i].mutex);
    finished[i].changed.wait(lock, [&] { return finished[i].done; });
    copier(copy[i]);
  }
  for (auto &t : threads)
    t.join();
}
} // namespace vf_work_stream
