// ThreadSanitizer does not model atomic_thread_fence, so the usual "release decrement, acquire fence on the
// last one" reference count looks unordered to it. In the ThreadSanitizer build only, release operations are
// made sequentially consistent, which gives such a decrement its acquire half; relaxed ones stay relaxed.
#pragma once
#ifdef __cplusplus
#include <atomic>
#include <memory>
#include <mutex>
#include <shared_mutex>
#define memory_order_release memory_order_seq_cst
#endif
