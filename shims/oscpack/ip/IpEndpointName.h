#pragma once
#include <oscpack/ip/UdpSocket.h>
