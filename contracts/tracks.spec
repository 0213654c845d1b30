# Track registry and buffer indices (C25)
opaque trackStream(t: int, d: int): int
# the stream of a track; of a foreign Track implementation it is only known to be the same whenever asked
def streamOf(t) = ite(typeis(t, *avformat.SimpleTrack), ref(as(t, *avformat.SimpleTrack).Stream), trackStream(tagof(t), dataof(t)))
def okTrack(t) = t != nil && streamOf(t) != 0 && (typeis(t, *avformat.SimpleTrack) ==> as(t, *avformat.SimpleTrack) != nil)
def okTracks(l) = all(k, 0, len(l), okTrack(l[k]))

iface avformat.Track.GetStream(t) (s)
  trusted a registered track gives the same stream whenever asked and does nothing else
  opt pure
  requires okTrack(t)
  ensures ref(s) == streamOf(t)

func avformat.SimpleTrack.GetStream(s) (r)
  tags C25
  ensures same(r, s.Stream)

func avformat.TrackManager.Add(t, track) (ok)
  tags C25
  requires t != nil && okTracks(t.Tracks)
  modifies t.Tracks, elems(t.Tracks)
  ensures [last] ok && len(t.Tracks) == old(len(t.Tracks)) + 1 && same(t.Tracks[len(t.Tracks) - 1], track)
  ensures [kept] all(k, 0, len(t.Tracks) - 1, same(t.Tracks[k], old(t.Tracks[k])))

func avformat.TrackManager.Size(t) (n)
  tags C25
  requires t != nil
  ensures n == len(t.Tracks)

func avformat.TrackManager.Get(t, index) (r)
  tags C25
  requires t != nil && 0 <= index && index < len(t.Tracks)
  ensures same(r, t.Tracks[index])

func avformat.TrackManager.Find(t, id) (r)
  tags C25
  requires t != nil && okTracks(t.Tracks)
  loop 1
    inv all(k, 0, iter, ptr(streamOf(t.Tracks[k]), avformat.AVStream).CodecID != id)
  ensures [none] r == nil ==> all(k, 0, len(t.Tracks), ptr(streamOf(t.Tracks[k]), avformat.AVStream).CodecID != id)
  ensures [first] r != nil ==> ex(k, 0, len(t.Tracks), same(r, t.Tracks[k]) && ptr(streamOf(t.Tracks[k]), avformat.AVStream).CodecID == id && all(j, 0, k, ptr(streamOf(t.Tracks[j]), avformat.AVStream).CodecID != id))

def media(t) = ptr(streamOf(t), avformat.AVStream).MediaType
func avformat.TrackManager.FindTrackWithType(t, mediaType) (r)
  tags C25
  requires t != nil && okTracks(t.Tracks)
  loop 1
    inv all(k, 0, iter, media(t.Tracks[k]) != mediaType)
  ensures [none] r == nil ==> all(k, 0, len(t.Tracks), media(t.Tracks[k]) != mediaType)
  ensures [first] r != nil ==> ex(k, 0, len(t.Tracks), same(r, t.Tracks[k]) && media(t.Tracks[k]) == mediaType && all(j, 0, k, media(t.Tracks[j]) != mediaType))

# at most one track per media type
def oneEach(l) = all(i, 0, len(l), all(j, 0, i, media(l[i]) != media(l[j])))
func avformat.BaseMuxer.AddTrack(b, track) (n, err)
  tags C25
  requires b != nil && okTracks(b.Tracks.Tracks) && okTrack(track) && oneEach(b.Tracks.Tracks)
  modifies b.Tracks, elems(b.Tracks.Tracks)
  ensures [taken] (err != nil) == old(ex(k, 0, len(b.Tracks.Tracks), media(b.Tracks.Tracks[k]) == media(track)))
  ensures [taken] err != nil ==> n == -1 && same(b.Tracks.Tracks, old(b.Tracks.Tracks))
  ensures [added] err == nil ==> n == old(len(b.Tracks.Tracks)) && len(b.Tracks.Tracks) == n + 1 && same(b.Tracks.Tracks[n], track)
  ensures [kept] all(k, 0, old(len(b.Tracks.Tracks)), same(b.Tracks.Tracks[k], old(b.Tracks.Tracks[k])))
  ensures [ok] okTracks(b.Tracks.Tracks)
  ensures [one] oneEach(b.Tracks.Tracks)

func avformat.BaseDemuxer.AddTrack(s, track) (ok)
  tags C25 C23
  requires s != nil && okTracks(s.Tracks.Tracks)
  modifies s.Tracks, elems(s.Tracks.Tracks)
  ensures [complete] ok == !s.Completed
  ensures [complete] s.Completed ==> same(s.Tracks.Tracks, old(s.Tracks.Tracks))
  ensures [last] ok ==> len(s.Tracks.Tracks) == old(len(s.Tracks.Tracks)) + 1 && same(s.Tracks.Tracks[len(s.Tracks.Tracks) - 1], track)
  ensures [kept] all(k, 0, old(len(s.Tracks.Tracks)), same(s.Tracks.Tracks[k], old(s.Tracks.Tracks[k])))
  ensures [demuxer] old(dmOK(s)) && okTrack(track) && dmTrack(track) ==> dmOK(s)

# every marker has one index, the position of its first use
def oneIndex(l) = all(i, 0, len(l), all(j, 0, i, l[i] != l[j]))
func avformat.BaseDemuxer.FindBufferIndex(s, marker) (n)
  tags C25
  requires s != nil && oneIndex(s.OrderedStreams)
  modifies s.OrderedStreams, elems(s.OrderedStreams)
  loop 1
    inv all(k, 0, iter, s.OrderedStreams[k] != marker)
  ensures [index] 0 <= n && n < len(s.OrderedStreams) && s.OrderedStreams[n] == marker
  ensures [consecutive] len(s.OrderedStreams) == old(len(s.OrderedStreams)) || len(s.OrderedStreams) == old(len(s.OrderedStreams)) + 1 && n == old(len(s.OrderedStreams))
  ensures [kept] all(k, 0, old(len(s.OrderedStreams)), s.OrderedStreams[k] == old(s.OrderedStreams[k]))
  ensures [one] oneIndex(s.OrderedStreams)

func avformat.BaseDemuxer.FindBufferIndexByMediaType(s, mediaType) (n)
  tags C25
  requires s != nil && oneIndex(s.OrderedStreams)
  modifies s.OrderedStreams, elems(s.OrderedStreams)
  ensures [index] 0 <= n && n < len(s.OrderedStreams) && s.OrderedStreams[n] == mediaType
  ensures [kept] all(k, 0, old(len(s.OrderedStreams)), s.OrderedStreams[k] == old(s.OrderedStreams[k]))
  ensures [one] oneIndex(s.OrderedStreams)
