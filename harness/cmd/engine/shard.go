package main

import "github.com/go-ego/murmur"

// shardOf is the store shard of a document, as the stores on disk have it.
func shardOf(id string, shards int) int { return int(murmur.Sum32(id) % uint32(shards)) }
