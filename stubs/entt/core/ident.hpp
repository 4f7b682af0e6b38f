// Stand-in: the serialization of standard types includes this header of EnTT without using anything of it.
#pragma once
