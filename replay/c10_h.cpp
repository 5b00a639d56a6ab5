// reads a V2 model file with the structs of /repo's current header; one request line = path, one answer line
#include <cstdio>
#include <unistd.h>
#include <cstdlib>
#include <iostream>
#include <string>
#include <vector>
#include <fstream>
#include <iterator>
#include "mllm/core/schema/ModelFileV2.hpp"
#include "mllm/core/DataTypes.hpp"
#include "mllm/core/ParameterFile.hpp"
#include "mllm/core/TensorStorage.hpp"
// Stand-ins: Tensor.cpp and TensorStorage.cpp need headers that are not installed; the reader and writer use only these members of theirs.
namespace mllm {
TensorStorage::~TensorStorage() { if (mem_type_ == kParamsNormal || mem_type_ == kNormal) free(ptr_); }
std::shared_ptr<TensorStorage> TensorStorage::create(const std::vector<int32_t>& shape, DataTypes dtype, const DeviceTypes& device) {
  auto r = std::make_shared<TensorStorage>();
  r->dtype_ = dtype;
  r->device_ = device;
  size_t n = 1;
  for (auto i : shape) n *= i;
  if (n % lanesOfType(dtype)) abort();
  r->size_ = n / lanesOfType(dtype) * bytesOfType(dtype);
  r->type_ = Storage::kTensor;
  return r;
}
Tensor::Tensor(const std::shared_ptr<TensorViewImpl>& impl) : impl_(impl) {}
Tensor& Tensor::alloc() { impl_->storage()->ptr_ = malloc(impl_->storage()->size_); return *this; }
size_t Tensor::bytes() const { return impl_->size(); }
size_t Tensor::numel() const { return impl_->numel(); }
Tensor::shape_t Tensor::shape() const { return impl_->shape(); }
Tensor::stride_t Tensor::stride() const { return impl_->stride(); }
DataTypes Tensor::dtype() const { return impl_->dtype(); }
DeviceTypes Tensor::device() const { return impl_->device(); }
std::string Tensor::name() const { return impl_->name(); }
bool Tensor::isContiguous() const { return impl_->isContiguous(); }
}
using namespace mllm;
using IO = ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV2>;

static std::string hex(const char* p, size_t n) {
  static const char* d = "0123456789abcdef";
  std::string s;
  for (size_t i = 0; i < n; i++) { s += d[(unsigned char)p[i] >> 4]; s += d[(unsigned char)p[i] & 15]; }
  return s.empty() ? "-" : s;
}

static FILE* out;
int main() {
  out = fdopen(dup(1), "w");      // the library logs to stdout
  dup2(2, 1);
  std::string path;
  while (std::getline(std::cin, path)) {
    if (path == "enum") {
      fprintf(out, "kFloat32=%d kFloat16=%d kBFloat16=%d kInt8=%d kInt16=%d kInt32=%d kInt64=%d kUInt8=%d kUInt16=%d kUInt32=%d kUInt64=%d kComplexFloat32=%d kComplexFloat64=%d\n",
             (int)kFloat32, (int)kFloat16, (int)kBFloat16, (int)kInt8, (int)kInt16, (int)kInt32, (int)kInt64, (int)kUInt8, (int)kUInt16, (int)kUInt32,
             (int)kUInt64, (int)kComplexFloat32, (int)kComplexFloat64);
      fflush(out);
      continue;
    }
    if (path.rfind("read ", 0) == 0) {          // read <0|1: mapped> <path>: the real reader
      auto pf = IO::read(path.substr(7), path[5] == '1');
      fprintf(out, "ok");
      for (auto& x : *pf) {
        auto impl = x.second.impl();
        fprintf(out, " %s %s %d %zu %d", hex(x.first.data(), x.first.size()).c_str(), hex(impl->storage()->name_.data(), impl->storage()->name_.size()).c_str(),
               (int)impl->dtype(), x.second.bytes(), (int)impl->shape().size());
        for (auto d : impl->shape()) fprintf(out, " %d", d);
        fprintf(out, " %s", hex((const char*)impl->storage()->ptr_, x.second.bytes()).c_str());
      }
      fprintf(out, "\n");
      fflush(out);
      continue;
    }
    if (path.rfind("copy ", 0) == 0) {          // copy <0|1> <path>: the real reader, then the real writer
      auto src = path.substr(7);
      IO::write(IO::read(src, path[5] == '1'), src + ".copy");
      fprintf(out, "ok\n");
      fflush(out);
      continue;
    }
    std::ifstream f(path, std::ios::binary);
    std::vector<char> b((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
    if (b.size() < sizeof(ModelFileV2Descriptor)) { fprintf(out, "short %zu\n", b.size()); fflush(out); continue; }
    auto* h = reinterpret_cast<ModelFileV2Descriptor*>(b.data());
    size_t off = h->params_desc_offset;
    unsigned n = h->num_params;
    fprintf(out, "ok %zu %d %d %u %zu %s", b.size(), h->magic_number == MLLM_MODEL_FILE_V2_MAGIC_NUMBER, h->version == MLLM_MODEL_FILE_V2_VERSION, n, off,
           hex(h->model_name, sizeof(h->model_name)).c_str());
    if (off > b.size() || n > (b.size() - off) / sizeof(ModelFileV2ParamsDescriptor)) {
      fprintf(out, " table-out-of-file\n");
      fflush(out);
      continue;
    }
    for (unsigned i = 0; i < n; i++) {
      auto* p = reinterpret_cast<ModelFileV2ParamsDescriptor*>(b.data() + off + i * sizeof(ModelFileV2ParamsDescriptor));
      fprintf(out, " %u %u %zu %zu %zu", p->parameter_id, p->parameter_type, (size_t)p->parameter_size, (size_t)p->parameter_offset, (size_t)p->shape_len);
      for (int j = 0; j < MLLM_MODEL_FILE_V2_TENSOR_SHAPE_LENGTH; j++) fprintf(out, " %d", p->shape[j]);
      auto v = p->_param_name_view();
      fprintf(out, " %s", hex(v.data(), v.size()).c_str());
      if (p->parameter_offset > b.size() || p->parameter_size > b.size() - p->parameter_offset) fprintf(out, " out-of-file");
      else fprintf(out, " %s", hex(b.data() + p->parameter_offset, p->parameter_size).c_str());
    }
    fprintf(out, "\n");
    fflush(out);
  }
}
