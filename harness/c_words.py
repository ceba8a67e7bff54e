"""Words that scripts and drivers agree on."""


def many(stem, n):
    return [stem + chr(97 + j // 26) + chr(97 + j % 26) for j in range(n)]


SPAM, HAM, NEUT = many('spam', 8), many('hamm', 8), many('neut', 8)
