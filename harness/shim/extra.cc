// Hand-written counterparts of the binding functions whose V8 14.6 API does not
// exist in the V8 12.4 of the installed Node.js, and the entry point: preloaded
// into node, __libc_start_main runs the harness instead of node's main.
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <string.h>
#include <pthread.h>

#include <mutex>
#include <vector>

#include "libplatform/libplatform.h"
#include "support.h"
#include "v8.h"

using namespace support;

extern "C" {
// ---- strings
int v8__String__Utf8Length(const v8::String& self, v8::Isolate* isolate) {
  return self.Utf8Length(isolate);
}

void v8__String__Write_v2(const v8::String& self, v8::Isolate* isolate,
                          uint32_t offset, uint32_t length, uint16_t* buffer,
                          int flags) {
  self.Write(isolate, buffer, offset, length, v8::String::NO_NULL_TERMINATION);
  if (flags & 1) buffer[length] = 0;
}

void v8__String__WriteOneByte_v2(const v8::String& self, v8::Isolate* isolate,
                                 uint32_t offset, uint32_t length,
                                 uint8_t* buffer, int flags) {
  self.WriteOneByte(isolate, buffer, offset, length,
                    v8::String::NO_NULL_TERMINATION);
  if (flags & 1) buffer[length] = 0;
}

size_t v8__String__WriteUtf8_v2(const v8::String& self, v8::Isolate* isolate,
                                char* buffer, size_t capacity, int flags,
                                size_t* processed) {
  int n = 0;
  int options = (flags & 1) ? 0 : v8::String::NO_NULL_TERMINATION;
  if (flags & 2) options |= v8::String::REPLACE_INVALID_UTF8;
  int w = self.WriteUtf8(isolate, buffer, static_cast<int>(capacity), &n, options);
  if (processed) *processed = n;
  return w;
}

struct ShimValueView {
  void* data;
  int length;
  bool one_byte;
};
static_assert(sizeof(ShimValueView) <= 32, "");

void v8__String__ValueView__CONSTRUCT(ShimValueView* buf, v8::Isolate* isolate,
                                      const v8::String& string) {
  int n = string.Length();
  buf->length = n;
  buf->one_byte = string.IsOneByte();
  if (buf->one_byte) {
    buf->data = malloc(n + 1);
    string.WriteOneByte(isolate, static_cast<uint8_t*>(buf->data), 0, n,
                        v8::String::NO_NULL_TERMINATION);
  } else {
    buf->data = malloc(2 * (n + 1));
    string.Write(isolate, static_cast<uint16_t*>(buf->data), 0, n,
                 v8::String::NO_NULL_TERMINATION);
  }
}
void v8__String__ValueView__DESTRUCT(ShimValueView* self) { free(self->data); }
bool v8__String__ValueView__is_one_byte(const ShimValueView& self) {
  return self.one_byte;
}
const void* v8__String__ValueView__data(const ShimValueView& self) {
  return self.data;
}
int v8__String__ValueView__length(const ShimValueView& self) {
  return self.length;
}

// ---- values
bool v8__Data__IsPrimitive(const v8::Data& self) {
  if (!self.IsValue()) return false;
  auto& v = reinterpret_cast<const v8::Value&>(self);
  return v.IsUndefined() || v.IsNull() || v.IsBoolean() || v.IsNumber() ||
         v.IsString() || v.IsSymbol() || v.IsBigInt();
}
bool v8__Data__IsModuleRequest(const v8::Data& self) { return false; }
uint32_t v8__Value__GetHash(v8::Value& self) {
  if (self.IsObject())
    return reinterpret_cast<v8::Object&>(self).GetIdentityHash();
  if (self.IsName()) return reinterpret_cast<v8::Name&>(self).GetIdentityHash();
  return 1;
}
const v8::Data* v8__FixedArray__Get(const v8::FixedArray& self, int index) {
  v8::Isolate* iso = v8::Isolate::GetCurrent();
  return local_to_ptr(ptr_to_local(&self)->Get(iso->GetCurrentContext(), index));
}
const v8::Value* v8__Object__GetPrototype(const v8::Object& self) {
  return local_to_ptr(ptr_to_local(&self)->GetPrototype());
}
MaybeBool v8__Object__SetPrototype(const v8::Object& self,
                                   const v8::Context& context,
                                   const v8::Value& prototype) {
  return maybe_to_maybe_bool(ptr_to_local(&self)->SetPrototype(
      ptr_to_local(&context), ptr_to_local(&prototype)));
}
void* v8__Object__GetAlignedPointerFromInternalField(const v8::Object& self,
                                                     int index, uint16_t) {
  return ptr_to_local(&self)->GetAlignedPointerFromInternalField(index);
}
void v8__Object__SetAlignedPointerInInternalField(const v8::Object& self,
                                                  int index, void* value,
                                                  uint16_t) {
  ptr_to_local(&self)->SetAlignedPointerInInternalField(index, value);
}
memory_span_t v8__ArrayBufferView__GetContents(const v8::ArrayBufferView& self,
                                               memory_span_t rstorage) {
  auto view = ptr_to_local(&self);
  size_t n = view->ByteLength();
  if (!view->HasBuffer() && n <= rstorage.size) {
    view->CopyContents(rstorage.data, n);
    return {rstorage.data, n};
  }
  auto buf = view->Buffer();
  return {static_cast<uint8_t*>(buf->Data()) + view->ByteOffset(), n};
}

// ---- contexts, snapshots
const v8::Context* v8__Context__New(v8::Isolate* isolate,
                                    const v8::ObjectTemplate* templ,
                                    const v8::Value* global_object,
                                    v8::MicrotaskQueue* microtask_queue) {
  return local_to_ptr(v8::Context::New(
      isolate, nullptr, ptr_to_maybe_local(templ),
      ptr_to_maybe_local(global_object),
      v8::DeserializeInternalFieldsCallback(), microtask_queue));
}
const v8::Context* v8__Context__FromSnapshot(v8::Isolate* isolate, size_t index,
                                             v8::Value* global_object,
                                             v8::MicrotaskQueue* queue) {
  return maybe_local_to_ptr(v8::Context::FromSnapshot(
      isolate, index, v8::DeserializeInternalFieldsCallback(), nullptr,
      ptr_to_maybe_local(global_object), queue));
}
void v8__SnapshotCreator__SetDefaultContext(v8::SnapshotCreator* self,
                                            const v8::Context& context) {
  self->SetDefaultContext(ptr_to_local(&context));
}
size_t v8__SnapshotCreator__AddContext(v8::SnapshotCreator* self,
                                       const v8::Context& context) {
  return self->AddContext(ptr_to_local(&context));
}
MaybeBool v8__Module__InstantiateModule(const v8::Module& self,
                                        const v8::Context& context,
                                        v8::Module::ResolveModuleCallback cb,
                                        void*) {
  return maybe_to_maybe_bool(
      ptr_to_local(&self)->InstantiateModule(ptr_to_local(&context), cb));
}
int v8__ModuleRequest__GetPhase(const v8::ModuleRequest&) { return 0; }
const v8::Data* v8__Isolate__GetCurrentHostDefinedOptions(v8::Isolate*) {
  return nullptr;
}
MaybeBool v8__Exception__CaptureStackTrace(const v8::Context&,
                                           const v8::Object&) {
  return MaybeBool::JustTrue;
}

// ---- platform, icu
static v8::Platform* new_platform(int threads, bool idle) {
  return v8::platform::NewDefaultPlatform(
             threads,
             idle ? v8::platform::IdleTaskSupport::kEnabled
                  : v8::platform::IdleTaskSupport::kDisabled,
             v8::platform::InProcessStackDumping::kDisabled, nullptr)
      .release();
}
v8::Platform* v8__Platform__NewUnprotectedDefaultPlatform(int threads,
                                                          bool idle) {
  return new_platform(threads, idle);
}
v8::Platform* v8__Platform__NewCustomPlatform(int threads, bool idle, bool,
                                              void*) {
  return new_platform(threads, idle);
}
void udata_setCommonData_77(const uint8_t*, int32_t* err) { *err = 0; }

// ---- log
struct OwEntry {
  int64_t kind;
  const void* what;
  int64_t value;
  int64_t thread;
};
static std::mutex ow_mutex;
static std::vector<OwEntry>* ow_entries = nullptr;
static bool ow_on = false;
void ow_log(int kind, const void* what, int64_t value) {
  if (!ow_on) return;
  std::lock_guard<std::mutex> g(ow_mutex);
  if (!ow_entries) ow_entries = new std::vector<OwEntry>;
  ow_entries->push_back({kind, what, value, static_cast<int64_t>(pthread_self())});
}
void ow_log_enable(int on) { ow_on = on; }
size_t ow_log_take(OwEntry* out, size_t max) {
  std::lock_guard<std::mutex> g(ow_mutex);
  if (!ow_entries) return 0;
  size_t n = ow_entries->size() < max ? ow_entries->size() : max;
  for (size_t i = 0; i < n; i++) out[i] = (*ow_entries)[i];
  ow_entries->erase(ow_entries->begin(), ow_entries->begin() + n);
  return n;
}

// ---- the array buffer allocator, as V8 uses it
void* ow_alloc(v8::ArrayBuffer::Allocator* a, size_t n, int zero) {
  return zero ? a->Allocate(n) : a->AllocateUninitialized(n);
}
void ow_free(v8::ArrayBuffer::Allocator* a, void* p, size_t n) { a->Free(p, n); }

// ---- entry point
int __libc_start_main(int (*)(int, char**, char**), int argc, char** argv,
                      void (*init)(void), void (*fini)(void),
                      void (*rtld_fini)(void), void* stack_end) {
  auto real = reinterpret_cast<decltype(&__libc_start_main)>(
      dlsym(RTLD_NEXT, "__libc_start_main"));
  auto run = [](int argc, char** argv, char**) -> int {
    unsetenv("LD_PRELOAD");
    const char* prog = getenv("OW_PROG");
    void* h = prog ? dlopen(prog, RTLD_LAZY | RTLD_GLOBAL) : nullptr;
    if (!h) {
      fprintf(stderr, "harness: cannot load %s: %s\n", prog ? prog : "(unset OW_PROG)", dlerror());
      return 2;
    }
    auto m = reinterpret_cast<int (*)(int, char**)>(dlsym(h, "ow_main"));
    if (!m) m = reinterpret_cast<int (*)(int, char**)>(dlsym(h, "main"));
    if (!m) {
      fprintf(stderr, "harness: %s has no main\n", prog);
      return 2;
    }
    int rc = m(argc, argv);
    fflush(stdout);
    // Skip static destructors: V8's threads may still be running.
    _exit(rc);
  };
  return real(run, argc, argv, init, fini, rtld_fini, stack_end);
}
}
