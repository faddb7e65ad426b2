package main

import (
	"math/rand"

	"github.com/pojntfx/stfs/pkg/config"
)

// Regular-file record sizes, in blocks of 512 bytes
var recordSizes = []int{1, 2, 3, 7, 20, 64, 128, 2048}

func caches(r *rand.Rand) string {
	if r.Intn(3) == 0 {
		return config.WriteCacheTypeFile
	}
	return config.WriteCacheTypeMemory
}

// cheapCfg returns a configuration which is plain most of the time.
func cheapCfg(r *rand.Rand) Cfg {
	c := Cfg{Level: config.CompressionLevelFastestKey, RecordSize: recordSizes[r.Intn(len(recordSizes)-1)], Cache: caches(r)}
	switch r.Intn(5) {
	case 0:
		c.Comp = config.CompressionFormatGZipKey
	case 1:
		return fullCfg(r)
	}
	return c
}

// fullCfg returns any supported configuration on a regular drive.
func fullCfg(r *rand.Rand) Cfg {
	c := Cfg{
		Comp:       config.KnownCompressionFormats[r.Intn(len(config.KnownCompressionFormats))],
		Level:      config.KnownCompressionLevels[r.Intn(len(config.KnownCompressionLevels))],
		Enc:        config.KnownEncryptionFormats[r.Intn(len(config.KnownEncryptionFormats))],
		Sig:        config.KnownSignatureFormats[r.Intn(len(config.KnownSignatureFormats))],
		RecordSize: recordSizes[r.Intn(len(recordSizes))],
		Cache:      caches(r),
	}
	return c
}

// tapeCfg returns a configuration which is supported on tape drives.
func tapeCfg(r *rand.Rand) Cfg {
	c := Cfg{Level: config.KnownCompressionLevels[r.Intn(3)], RecordSize: []int{1, 3, 20, 128}[r.Intn(4)], Cache: caches(r), Tape: true}
	comps := []string{config.NoneKey, config.NoneKey, config.CompressionFormatZStandardKey, config.CompressionFormatBzip2Key, config.CompressionFormatBzip2ParallelKey}
	if c.RecordSize >= 128 {
		comps = append(comps, config.CompressionFormatGZipKey, config.CompressionFormatLZ4Key)
	}
	c.Comp = comps[r.Intn(len(comps))]
	if c.Comp == config.CompressionFormatZStandardKey && c.RecordSize < 2 {
		c.RecordSize = 2 // The codec needs a window of at least 1 KiB
	}
	c.Enc = config.KnownEncryptionFormats[r.Intn(3)]
	c.Sig = []string{config.NoneKey, config.SignatureFormatPGPKey}[r.Intn(2)]
	return c
}
