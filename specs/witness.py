"""
Examples that the rules of C01, C02, C03, C04 and C27 must recognise on every run (not compared with anything).
"""
# pylint: skip-file
import os
from typing import Dict, List, Set


class Kept:
    words: List[str]
    flags: Set[str]
    index: Dict[str, str]

    def remember(self, word):
        self.words.append(word)
        return word

    def merge(self, word):
        flags = self.flags
        flags |= {word}
        return flags

    def listed(self, word):
        return [flag + word for flag in set(self.words)]

    def hashed(self, word):
        return sorted(self.words, key=lambda x: id(x))

    def own(self, word):
        words = [*self.words]
        words.append(word)
        return sorted(set(words))


def saves(path):
    with open(path, 'w') as file:
        file.write('x')


def runs(path):
    os.system(path)


def personal(path):
    return open('personal.dic')


def reads(path):
    return open(path)


def first_letter(word: str):
    return word[0]


def pairs(word: str):
    for i in range(len(word)):
        yield word[i] + word[i + 1]


def checked(word: str):
    if len(word) > 1:
        yield word[1]
        for i in range(1, len(word)):
            yield word[i - 1] + word[i]


def spins(word: str):
    pos = word.find('a')
    while pos != -1:
        yield pos
        pos = word.find('a', pos)


def walks(word: str):
    pos = word.find('a')
    while pos != -1:
        yield pos
        pos = word.find('a', pos + 1)


def repeats(word: str, count: int = 0):
    yield word
    if count != 1:
        yield from repeats(word, count=count + 2)


def tails(word: str):
    yield word
    if word:
        yield from tails(word[1:])
