"""Bridges between the reference model's tile types and the code under test."""
import ref
from mahjong.container.set import TileSet
from mahjong.tile.definition import Tile, AkaTile

TILES = [Tile(t % 9 + 1, "mpsz"[t // 9]) for t in range(34)]


def tile(t):
    return TILES[t]


def tile_set(counts, order=None):
    """A TileSet holding these counts; `order` fixes the insertion order."""
    types = order if order is not None else [t for t in range(34) for _ in range(counts[t])]
    return TileSet(TILES[t] for t in types)


def type_of(x):
    """Type of a tile of the code under test, red five = five."""
    n = x.number or 5
    return "mpsz".index(x.color) * 9 + n - 1


def types_of(tiles):
    return sorted(type_of(x) for x in tiles)


def counts_in(ts):
    c = [0] * 34
    for k, v in ts.items():
        c[type_of(k)] += v
    return c
