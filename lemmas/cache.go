package rdns

// Functions that only call repository functions, so that one contract can relate them.

// What a stored blob gives back for the record it was made from.
func vfBlob(key lruKey, meta *cacheAnswer, wire []byte) (k lruKey, ts, exp int64, pre bool, msg []byte, match bool, err error) {
	b, err := newCacheBlobFromWire(key, meta, wire)
	if err != nil {
		return k, 0, 0, false, nil, false, err
	}
	return b.key(), b.timestamp(), b.expiry(), b.prefetchEligible(), b.message(), b.matchesKey(key), nil
}

// Whether a blob stored under one key is taken for another.
func vfBlobOther(key, other lruKey, meta *cacheAnswer, wire []byte) (match bool, err error) {
	b, err := newCacheBlobFromWire(key, meta, wire)
	if err != nil {
		return false, err
	}
	return b.matchesKey(other), nil
}

// A record through the Redis encoding and back.
func vfRedisRecord(buf []byte, item *cacheAnswer) (*cacheAnswer, error, error) {
	b, err := encodeCacheAnswer(buf, item)
	if err != nil {
		return nil, err, nil
	}
	a, err := decodeCacheAnswer(b)
	return a, nil, err
}

// A time through the stored form and back.
func vfNano(n int64) int64 {
	return unixNano(nanoTime(n))
}
