// mfsim seam: the code under test uses dealii::WorkStream; here the name
// resolves to a WorkStream whose threads, hand-overs and slots are decided by
// the simulator.  Same interface and same contract as deal.II 9.5: scratch
// data per thread, copy data per slot and REUSED without being reset, copier
// calls serial and in iterator order, an exception cancels the rest and is
// rethrown from run().
#ifndef MFSIM_WORK_STREAM_H
#define MFSIM_WORK_STREAM_H
#include_next <deal.II/base/work_stream.h>

#include <deal.II/base/iterator_range.h>
#include <functional>
#include <list>
#include <memory>
#include <vector>

namespace mfsim
{
// work(slot, thread, chunk) and copy(slot, chunk) for chunk = 0..n_chunks-1
void ws_engine(long n_chunks, int n_threads, int n_slots, bool ordered_copy,
               std::function<void(int, int, long)> const &work,
               std::function<void(int, long)> const &copy);
int ws_threads();
int ws_chunk(int asked);
int ws_slots(int asked);
void ws_item(bool begin, long index);
} // namespace mfsim

namespace dealii
{
namespace SimWorkStream
{
template <typename Worker, typename Copier, typename Iterator,
          typename ScratchData, typename CopyData>
void run_impl(std::vector<Iterator> const &items, Worker &worker,
              Copier &copier, const ScratchData &sample_scratch,
              const CopyData &sample_copy, unsigned int queue_length,
              unsigned int chunk_size, bool ordered)
{
  std::function<void(CopyData const &)> copy_fn = copier;
  int const T = mfsim::ws_threads();
  int const chunk = T == 1 ? 1 : mfsim::ws_chunk(chunk_size);
  int const slots = T == 1 ? 1 : mfsim::ws_slots(queue_length);
  long const n = items.size();
  long const n_chunks = (n + chunk - 1) / chunk;
  std::vector<std::vector<CopyData>> copy_datas(
      slots, std::vector<CopyData>(chunk, sample_copy));
  std::vector<std::unique_ptr<ScratchData>> scratch(T);

  mfsim::ws_engine(
      n_chunks, T, slots, ordered,
      [&](int slot, int thread, long c) {
        if (!scratch[thread])
          scratch[thread] = std::make_unique<ScratchData>(sample_scratch);
        for (long i = c * chunk; i < std::min<long>(n, (c + 1) * chunk); ++i)
        {
          mfsim::ws_item(true, i);
          worker(items[i], *scratch[thread], copy_datas[slot][i - c * chunk]);
          if (!ordered && copy_fn)
            copy_fn(copy_datas[slot][i - c * chunk]);
          mfsim::ws_item(false, i);
        }
      },
      [&](int slot, long c) {
        if (copy_fn && ordered)
          for (long i = c * chunk; i < std::min<long>(n, (c + 1) * chunk); ++i)
            copy_fn(copy_datas[slot][i - c * chunk]);
      });
}

template <typename Worker, typename Copier, typename Iterator,
          typename ScratchData, typename CopyData>
void run(const std::vector<std::vector<Iterator>> &colored, Worker worker,
         Copier copier, const ScratchData &sample_scratch,
         const CopyData &sample_copy, const unsigned int queue_length = 8,
         const unsigned int chunk_size = 8)
{
  for (auto const &color : colored)
    run_impl(color, worker, copier, sample_scratch, sample_copy, queue_length,
             chunk_size, false);
}

template <typename Worker, typename Copier, typename Iterator,
          typename ScratchData, typename CopyData>
void run(const Iterator &begin, const std_cxx20::type_identity_t<Iterator> &end,
         Worker worker, Copier copier, const ScratchData &sample_scratch,
         const CopyData &sample_copy, const unsigned int queue_length = 8,
         const unsigned int chunk_size = 8)
{
  if (!(begin != end))
    return;
  std::vector<Iterator> items;
  for (Iterator p = begin; p != end; ++p)
    items.push_back(p);
  std::function<void(CopyData const &)> copy_fn = copier;
  run_impl(items, worker, copier, sample_scratch, sample_copy, queue_length,
           chunk_size, static_cast<bool>(copy_fn));
}

template <
    typename Worker, typename Copier, typename IteratorRangeType,
    typename ScratchData, typename CopyData,
    typename = std::enable_if_t<has_begin_and_end<IteratorRangeType>>>
void run(IteratorRangeType iterator_range, Worker worker, Copier copier,
         const ScratchData &sample_scratch, const CopyData &sample_copy,
         const unsigned int queue_length = 8, const unsigned int chunk_size = 8)
{
  run(iterator_range.begin(), iterator_range.end(), worker, copier,
      sample_scratch, sample_copy, queue_length, chunk_size);
}

template <typename Worker, typename Copier, typename Iterator,
          typename ScratchData, typename CopyData>
void run(const IteratorRange<Iterator> &iterator_range, Worker worker,
         Copier copier, const ScratchData &sample_scratch,
         const CopyData &sample_copy, const unsigned int queue_length = 8,
         const unsigned int chunk_size = 8)
{
  run(iterator_range.begin(), iterator_range.end(), worker, copier,
      sample_scratch, sample_copy, queue_length, chunk_size);
}

template <typename MainClass, typename Iterator, typename ScratchData,
          typename CopyData>
void run(const Iterator &begin, const std_cxx20::type_identity_t<Iterator> &end,
         MainClass &main_object,
         void (MainClass::*worker)(const Iterator &, ScratchData &, CopyData &),
         void (MainClass::*copier)(const CopyData &),
         const ScratchData &sample_scratch, const CopyData &sample_copy,
         const unsigned int queue_length = 8, const unsigned int chunk_size = 8)
{
  run(
      begin, end,
      [&main_object, worker](const Iterator &it, ScratchData &s, CopyData &c) {
        (main_object.*worker)(it, s, c);
      },
      [&main_object, copier](const CopyData &c) { (main_object.*copier)(c); },
      sample_scratch, sample_copy, queue_length, chunk_size);
}

template <typename MainClass, typename Iterator, typename ScratchData,
          typename CopyData>
void run(IteratorRange<Iterator> range, MainClass &main_object,
         void (MainClass::*worker)(const Iterator &, ScratchData &, CopyData &),
         void (MainClass::*copier)(const CopyData &),
         const ScratchData &sample_scratch, const CopyData &sample_copy,
         const unsigned int queue_length = 8, const unsigned int chunk_size = 8)
{
  run(range.begin(), range.end(), main_object, worker, copier, sample_scratch,
      sample_copy, queue_length, chunk_size);
}
} // namespace SimWorkStream
} // namespace dealii
#define WorkStream SimWorkStream
#endif
