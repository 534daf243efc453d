// Stand-in for the dr_libs submodule: the part of dr_wav which libossia uses, for uncompressed wav data in memory.
#pragma once
#include <algorithm>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>

typedef uint8_t drwav_uint8;
typedef uint16_t drwav_uint16;
typedef uint32_t drwav_uint32;
typedef uint64_t drwav_uint64;
typedef int32_t drwav_int32;
typedef drwav_uint32 drwav_bool32;

#define DR_WAVE_FORMAT_PCM 0x1
#define DR_WAVE_FORMAT_IEEE_FLOAT 0x3

typedef enum { drwav_seek_origin_start, drwav_seek_origin_current } drwav_seek_origin;
typedef enum { drwav_container_riff, drwav_container_w64, drwav_container_rf64 } drwav_container;

struct drwav_chunk_header
{
  union
  {
    drwav_uint8 fourcc[4];
    drwav_uint8 guid[16];
  } id;
  drwav_uint64 sizeInBytes;
  unsigned int paddingSize;
};
struct drwav_fmt
{
  drwav_uint16 formatTag, channels;
  drwav_uint32 sampleRate;
  drwav_uint16 bitsPerSample;
};
struct drwav_allocation_callbacks
{
  void* pUserData;
  void* (*onMalloc)(size_t sz, void* pUserData);
  void* (*onRealloc)(void* p, size_t sz, void* pUserData);
  void (*onFree)(void* p, void* pUserData);
};

typedef size_t (*drwav_read_proc)(void* pUserData, void* pBufferOut, size_t bytesToRead);
typedef drwav_bool32 (*drwav_seek_proc)(void* pUserData, int offset, drwav_seek_origin origin);
typedef drwav_uint64 (*drwav_chunk_proc)(
    void* pChunkUserData, drwav_read_proc onRead, drwav_seek_proc onSeek, void* pReadSeekUserData,
    const drwav_chunk_header* pChunkHeader, drwav_container container, const drwav_fmt* pFMT);

struct drwav
{
  struct
  {
    const drwav_uint8* data;
    size_t dataSize;
    size_t currentReadPos;
  } memoryStream;
  drwav_uint16 channels;
  drwav_uint32 sampleRate;
  drwav_uint16 bitsPerSample;
  drwav_uint16 translatedFormatTag;
  drwav_uint64 totalPCMFrameCount;
  size_t dataPos; // where the frames are
  drwav_uint64 frame;
  void* scratch; // so that forgetting to uninitialize is a leak, and doing it twice an error
};

inline size_t drwav_shim_read(void* w_, void* out, size_t n)
{
  auto& m = ((drwav*)w_)->memoryStream;
  n = std::min(n, m.dataSize - m.currentReadPos);
  std::memcpy(out, m.data + m.currentReadPos, n);
  m.currentReadPos += n;
  return n;
}
inline drwav_bool32 drwav_shim_seek(void* w_, int off, drwav_seek_origin o)
{
  auto& m = ((drwav*)w_)->memoryStream;
  m.currentReadPos = std::min(m.dataSize, (o == drwav_seek_origin_start ? 0 : m.currentReadPos) + off);
  return 1;
}
inline drwav_bool32 drwav_init_memory_ex(
    drwav* w, const void* data, size_t size, drwav_chunk_proc on_chunk, void* ud, drwav_uint32, const drwav_allocation_callbacks*)
{
  std::memset((void*)w, 0, sizeof(*w));
  if(!data || size == 0)
    return 0;
  w->memoryStream = {(const drwav_uint8*)data, size, 0};
  w->scratch = std::malloc(16);
  auto& m = w->memoryStream;
  m.currentReadPos = 12;
  while(m.currentReadPos + 8 <= size)
  {
    drwav_chunk_header h{};
    drwav_shim_read(w, h.id.fourcc, 4);
    drwav_uint32 n;
    drwav_shim_read(w, &n, 4);
    h.sizeInBytes = n;
    const size_t at = m.currentReadPos;
    if(std::memcmp(h.id.fourcc, "fmt ", 4) == 0 && n >= 16)
    {
      auto p = m.data + at;
      auto u16 = [&](int i) { return (drwav_uint16)(p[i] | p[i + 1] << 8); };
      w->translatedFormatTag = u16(0);
      w->channels = u16(2);
      w->sampleRate = u16(4) | (drwav_uint32)u16(6) << 16;
      w->bitsPerSample = u16(14);
    }
    else if(std::memcmp(h.id.fourcc, "data", 4) == 0)
    {
      w->dataPos = at;
      const int fb = w->channels * w->bitsPerSample / 8;
      w->totalPCMFrameCount = fb ? n / fb : 0;
    }
    else if(on_chunk)
    {
      drwav_fmt f{w->translatedFormatTag, w->channels, w->sampleRate, w->bitsPerSample};
      on_chunk(ud, drwav_shim_read, drwav_shim_seek, w, &h, drwav_container_riff, &f);
    }
    m.currentReadPos = at + n + (n & 1);
  }
  return w->dataPos != 0;
}
inline void drwav_uninit(drwav* w) { std::free(w->scratch); }
inline drwav_bool32 drwav_seek_to_pcm_frame(drwav* w, drwav_uint64 f)
{
  // as in the real one: clamped to the last frame
  if(w->totalPCMFrameCount == 0)
    return 1;
  w->frame = std::min(f, w->totalPCMFrameCount - 1);
  return 1;
}
inline drwav_uint64 drwav_read_pcm_frames(drwav* w, drwav_uint64 n, void* out)
{
  const int fb = w->channels * w->bitsPerSample / 8;
  n = std::min(n, w->totalPCMFrameCount - w->frame);
  std::memcpy(out, w->memoryStream.data + w->dataPos + w->frame * fb, n * fb);
  w->frame += n;
  return n;
}
inline drwav_uint64 drwav_read_pcm_frames_f32(drwav*, drwav_uint64, float*) { return 0; }
