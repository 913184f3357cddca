// kl expects a yaml-cpp in which NodeType is a namespace; the installed release has it as a class. The enum and
// its mangled name are the same.
#ifndef VALUE_TYPE_H_62B23520_7C8E_11DE_8A39_0800200C9A66
#define VALUE_TYPE_H_62B23520_7C8E_11DE_8A39_0800200C9A66
#pragma once
namespace YAML { namespace NodeType { enum value { Undefined, Null, Scalar, Sequence, Map }; } }
#endif
