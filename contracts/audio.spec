# ADTS headers and AudioSpecificConfig (C21). Fields are bit fields of the 56-bit header, most significant bit first.
def field(h: int, k: int, n: int) = h / pow2c(k) % pow2c(n)

func utils.ADtsHeader.SyncWord(a) (r)
  tags C21
  ensures r == a / 17592186044416 % 4096

func utils.ADtsHeader.ID(a) (r)
  tags C21
  ensures r == a / 8796093022208 % 2

func utils.ADtsHeader.Layer(a) (r)
  tags C21
  ensures r == a / 2199023255552 % 4

func utils.ADtsHeader.ProtectionAbsent(a) (r)
  tags C21
  ensures r == a / 1099511627776 % 2

func utils.ADtsHeader.Profile(a) (r)
  tags C21
  ensures r == a / 274877906944 % 4

func utils.ADtsHeader.Frequency(a) (r)
  tags C21
  ensures r == a / 17179869184 % 16

func utils.ADtsHeader.PrivateBit(a) (r)
  tags C21
  ensures r == a / 8589934592 % 2

func utils.ADtsHeader.Channel(a) (r)
  tags C21
  ensures r == a / 1073741824 % 8

func utils.ADtsHeader.Original(a) (r)
  tags C21
  ensures r == a / 536870912 % 2

func utils.ADtsHeader.Home(a) (r)
  tags C21
  ensures r == a / 268435456 % 2

func utils.ADtsHeader.CopyrightBit(a) (r)
  tags C21
  ensures r == a / 134217728 % 2

func utils.ADtsHeader.CopyrightStart(a) (r)
  tags C21
  ensures r == a / 67108864 % 2

func utils.ADtsHeader.FrameLength(a) (r)
  tags C21
  ensures r == a / 8192 % 8192

func utils.ADtsHeader.Fullness(a) (r)
  tags C21
  ensures r == a / 4 % 2048

func utils.ADtsHeader.Blocks(a) (r)
  tags C21
  ensures r == a % 4

# the sampling rate of an index, -1 for the reserved ones, 0 outside
def rate(i: int) = ite(i == 0, 96000, ite(i == 1, 88200, ite(i == 2, 64000, ite(i == 3, 48000, ite(i == 4, 44100, ite(i == 5, 32000, ite(i == 6, 24000, ite(i == 7, 22050, ite(i == 8, 16000, ite(i == 9, 12000, ite(i == 10, 11025, ite(i == 11, 8000, ite(i == 12, 7350, ite(13 <= i && i <= 15, 0 - 1, 0))))))))))))))
def channels(i: int) = ite(1 <= i && i <= 6, i, ite(i == 7, 8, ite(i == 11, 7, ite(i == 12, 8, ite(i == 13, 24, 0)))))

func utils.GetSampleRateFromFrequency(index) (r, ok)
  tags C21
  ensures r == rate(index)
  ensures ok == (0 <= index && index <= 15)

func utils.GetSampleRateIndex(rate) (r)
  tags C21
  loop 1
    unroll
  ensures [found] r != -1 ==> 0 <= r && r <= 12 && rate(r) == rate
  ensures [missing] r == -1 ==> !ex(i, 0, 13, rate(i) == rate)

# --- writing and reading headers ---
def be56(A: arr, i: int) = be24(A, i) * 4294967296 + be32(A, i + 3)

func utils.SetADtsHeader(header, mpegId, aot, index, channelConfig, size)
  tags C21
  requires len(header) >= 7
  modifies elems(header, 0, 7)
  ensures [sync] header[0] == 255 && header[1] == 240 + mpegId % 2 * 8 + 1
  ensures [profile] header[2] == aot % 4 * 64 + index % 16 * 4 + channelConfig / 4 % 2
  ensures [channels] header[3] == channelConfig % 4 * 64 + size / 2048 % 4
  ensures [size] header[4] == size / 8 % 256 && header[5] == size % 8 * 32 + 31 && header[6] == 252

func utils.ReadADtsFixedHeader(data) (h, err)
  tags C21
  ensures [error] (err == nil) == (len(data) >= 7 && data[0] == 255 && data[1] / 16 == 15)
  ensures [value] err == nil ==> h == be56(bytes(data), off(data))

func utils.ADtsHeader2MpegAudioConfigData(header) (r, err)
  tags C21
  ensures err == nil && len(r) == 2 && fresh(r)
  ensures [object] r[0] / 8 == header / 274877906944 % 4 + 1
  ensures [index] r[0] % 8 * 2 + r[1] / 128 == header / 17179869184 % 16
  ensures [channels] r[1] / 8 % 16 == header / 1073741824 % 8
  ensures [rest] r[1] % 8 == 0

func utils.ParseMpeg4AudioConfig(data) (c, err)
  tags C21
  ensures [error] (err == nil) == (len(data) >= 2 && data[1] / 8 % 16 < 14)
  ensures [object] err == nil ==> c != nil && fresh(c) && c.ObjectType == data[0] / 8
  ensures [index] err == nil ==> c.SamplingIndex == data[0] % 8 * 2 + data[1] / 128 && c.SampleRate == rate(c.SamplingIndex)
  ensures [channels] err == nil ==> c.ChanConfig == data[1] / 8 % 16 && c.Channels == channels(c.ChanConfig)

func avformat.ExtractAudioExtraData(codec, data) (extra, skip, config, err)
  tags C21
  ensures [other] codec != utils.AVCodecIdAAC ==> extra == nil && skip == 0 && err == nil && config.SampleRate == 8000 && config.SampleSize == 16 && config.Channels == 1 && !config.HasADTSHeader
  ensures [error] codec == utils.AVCodecIdAAC ==> (err == nil) == (len(data) >= 7 && data[0] == 255 && data[1] / 16 == 15)
  ensures [error] err != nil ==> extra == nil && skip == -1
  ensures [skip] codec == utils.AVCodecIdAAC && err == nil ==> skip == ite(data[1] % 2 == 0, 9, 7)
  ensures [extra] codec == utils.AVCodecIdAAC && err == nil ==> len(extra) == 2 && fresh(extra) && extra[0] / 8 == data[2] / 64 + 1 && extra[0] % 8 * 2 + extra[1] / 128 == data[2] / 4 % 16 && extra[1] % 128 == (data[2] % 2 * 4 + data[3] / 64) * 8
  ensures [config] codec == utils.AVCodecIdAAC && err == nil ==> config.SampleRate == rate(data[2] / 4 % 16) && config.SampleSize == 16 && config.Channels == channels(data[2] % 2 * 4 + data[3] / 64) && config.HasADTSHeader

# an in-range header reads back as written
lemma adts_round(A: arr, i: int, id: int, profile: int, index: int, chan: int, size: int)
  tags C21
  requires 0 <= id && id < 2 && 0 <= profile && profile < 4 && 0 <= index && index < 16 && 0 <= chan && chan < 8 && 0 <= size && size < 8192
  requires sel(A, i) == 255 && sel(A, i + 1) == 240 + id % 2 * 8 + 1 && sel(A, i + 2) == profile % 4 * 64 + index % 16 * 4 + chan / 4 % 2
  requires sel(A, i + 3) == chan % 4 * 64 + size / 2048 % 4 && sel(A, i + 4) == size / 8 % 256 && sel(A, i + 5) == size % 8 * 32 + 31 && sel(A, i + 6) == 252
  ensures let(h, be56(A, i), h / 17592186044416 % 4096 == 4095 && h / 8796093022208 % 2 == id && h / 2199023255552 % 4 == 0 && h / 1099511627776 % 2 == 1)
  ensures let(h, be56(A, i), h / 274877906944 % 4 == profile && h / 17179869184 % 16 == index && h / 1073741824 % 8 == chan)
  ensures let(h, be56(A, i), h / 8192 % 8192 == size && h / 4 % 2048 == 2047 && h % 4 == 0)
