#pragma once
#include <oscpack/ip/UdpSocket.h>
#include <oscpack/osc/OscAll.h>
namespace oscpack
{
class OscPacketListener : public PacketListener
{
protected:
  virtual void ProcessBundle(const ReceivedBundle& b, const IpEndpointName& ip)
  {
    for (auto i = b.ElementsBegin(); i != b.ElementsEnd(); ++i)
    {
      if (i->IsBundle())
        ProcessBundle(ReceivedBundle(*i), ip);
      else
        ProcessMessage(ReceivedMessage(*i), ip);
    }
  }
  virtual void ProcessMessage(const ReceivedMessage& m, const IpEndpointName& ip) = 0;

public:
  void ProcessPacket(const char* data, int size, const IpEndpointName& ip) override
  {
    ReceivedPacket p(data, size);
    if (p.IsBundle())
      ProcessBundle(ReceivedBundle(p), ip);
    else
      ProcessMessage(ReceivedMessage(p), ip);
  }
};
}
