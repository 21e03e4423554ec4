#pragma once
#include "fly/coders/coder_config.hpp"
#include "fly/coders/huffman/huffman_decoder.hpp"
#include "fly/coders/huffman/huffman_encoder.hpp"

#include <memory>
#include <string>

struct HuffConfig : fly::coders::CoderConfig
{
    HuffConfig(int kb, int len)
    {
        m_default_huffman_encoder_chunk_size_kb = static_cast<std::uint16_t>(kb);
        m_default_huffman_encoder_max_code_length = static_cast<std::uint8_t>(len);
    }
};
inline bool huff_encode(std::string const &in, std::string &out, int kb, int len)
{
    auto const e = std::make_unique<fly::coders::HuffmanEncoder>(std::make_shared<HuffConfig>(kb, len));
    return e->encode_string(in, out);
}
inline bool huff_decode(std::string const &in, std::string &out)
{
    auto const d = std::make_unique<fly::coders::HuffmanDecoder>();
    return d->decode_string(in, out);
}
