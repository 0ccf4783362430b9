# -*- coding: utf-8 -*-
"""Workload generators: hostile text and realistic Korean corpora."""

JAUM = [chr(c) for c in range(0x3131, 0x314F)]
MOUM = [chr(c) for c in range(0x314F, 0x3164)]
CHO = 'ㄱㄲㄴㄷㄸㄹㅁㅂㅃㅅㅆㅇㅈㅉㅊㅋㅌㅍㅎ'
JUNG = 'ㅏㅐㅑㅒㅓㅔㅕㅖㅗㅘㅙㅚㅛㅜㅝㅞㅟㅠㅡㅢㅣ'
JONG = ' ㄱㄲㄳㄴㄵㄶㄷㄹㄺㄻㄼㄽㄾㄿㅀㅁㅂㅄㅅㅆㅇㅈㅊㅋㅌㅍㅎ'
SPACES = [' ', '  ', '\t', '\n', '\u3000', '\xa0', '\u2003', '\x1c', '\x85']
ODD = ['\u200b', '\ufeff', '\u3164', '\u318d', '\u1100', '\u1161', '\u11a8', '\u3130', '\u318e',
       '\uac00', '\ud7a3', '\ud7a4', '\uabff', '\U0001F600', '\U0001F1F0', '中', '国', 'あ', 'ア', 'Я', 'é', 'À', 'ÿ',
       '×', '÷', '·', '㎏', '®', '①', '㈜', '०', '０', '９', 'Ａ', '٣', '²', '½', '_', '☆', '～', '…', '“', '”', '’', '\x00', '\x7f', 'e\u0301']
ASCII_PUNCT = list('!"#$%&\'()*+,-./:;<=>?@[\\]^_`{|}~')

NOUNS = ('나라 사람 아이오아이 대통령 경제 학교 서울 한국 인터넷 뉴스 축구 영화 음악 정부 회사 시장 국회 경찰 정책 기술 문제 '
         '시간 생각 마음 자동차 컴퓨터 프로그램 데이터 언어 모델 연구 실험 결과 방법 이야기 친구 가족 아버지 어머니 선생님 '
         '학생 의사 병원 은행 공항 비행기 바다 하늘 나무 커피 물 집 밥 책 길 손 눈 차 강 산 트와이스 아이돌 빅데이터 서비스').split()
JOSA = '은 는 이 가 을 를 의 에 에서 에게 로 으로 와 과 도 만 까지 부터 처럼 보다 라고 이라고 에는 에도 이나 라도'.split()
VERBS = ('가 하 먹 보 오 만들 읽 쓰 듣 걷 돕 짓 부르 흐르 이르 잡 놀 살 알 주 되 받 찾 모르 누르 아름답 덥 춥 파랗 빨갛 크 작 '
         '예쁘 좋 많 없 있 공부하 시작하 사랑하').split()
ENDS = ('다 고 는 은 을 어 아 었다 았다 지만 니까 면 려고 어서 아서 네 죠 습니다 ㅂ니다 던 자').split()

SYL_COMMON = '가나다라마바사아자차카타파하거너더러머버서어저처커터퍼허고노도로모보소오조코토포호구누두루무부수우주쿠투푸후그느드르므브스으즈크트프흐기니디리미비시이지치키티피히은는을를의에와과도만안녕하세요있없었았겠했습니다ㅂ'


def syllable(rng):
    return chr(rng.randrange(0xAC00, 0xD7A4))


def char(rng, kinds='sssjmaednpow'):
    k = rng.choice(kinds)
    if k == 's':
        return rng.choice(SYL_COMMON) if rng.random() < .7 else syllable(rng)
    if k == 'j':
        return rng.choice(JAUM) if rng.random() < .3 else rng.choice('ㄱㄴㅋㅎㅅㅠㅇ')
    if k == 'm':
        return rng.choice(MOUM) if rng.random() < .5 else rng.choice('ㅜㅠㅡㅏ')
    if k == 'a':
        return rng.choice('abcdefsXYZSz')
    if k == 'e':
        return rng.choice(['À', 'ÿ', 'é', 'S', 's', '`', "'"])
    if k in 'dn':
        return rng.choice('0123456789')
    if k == 'p':
        return rng.choice(ASCII_PUNCT)
    if k == 'o':
        return rng.choice(ODD)
    return rng.choice(SPACES)


def hostile(rng, n=None, kinds=None):
    """adversarial string: mixes scripts, runs, emoticons, whitespace kinds"""
    if n is None:
        n = rng.choice((0, 1, 2, 3, 5, 8, 13, 25, 60)) if rng.random() < .97 else rng.choice((130, 300)) if rng.random() < .8 else rng.choice((1100, 4200))
    kinds = kinds or rng.choice(('sssjmaednpow', 'sw', 'sjmw', 'jm', 'sd', 'saedp', 'p', 'o', 'sssssw', 'apdw', 'jmjmsw'))
    out = []
    while len(out) < n:
        x = rng.random()
        if x < .15 and out:
            out.extend([out[-1]] * (rng.randrange(1, 7) if rng.random() < .9 else rng.randrange(7, 40) if n < 1000 or rng.random() < .8 else rng.choice((255, 256, 300, 1100))))          # runs
        elif x < .25:
            out.extend(emoticon(rng))
        elif x < .30 and len(out) > 2:
            k = rng.randrange(1, 5)
            out.extend(out[-k:] * rng.randrange(1, 5))           # repeated n-grams
        else:
            out.append(char(rng, kinds))
    return ''.join(out[:n])


def compose3(c, j, k=' '):
    return chr(0xAC00 + CHO.index(c) * 588 + JUNG.index(j) * 28 + JONG.index(k))


def emoticon(rng):
    """fragments around the emoticon rules: jaum+syllable+moum, syllable+its final, ..."""
    c, j = rng.choice('ㅋㅎㅠㅇㄱ'.replace('ㅠ', 'ㄴ')), rng.choice('ㅜㅠㅏㅡ')
    c2, j2 = rng.choice('ㅋㅎㄱ'), rng.choice('ㅜㅠㅏ')
    k = rng.choice(' ㅋㅎㄱㄳ')
    s = compose3(c, j, k)
    form = rng.randrange(8)
    return [c + s + j, s + k.strip() * 2, c + s, s + j, c2 + s + j, c + s + j2, s + c2 * 3,
            c * 2 + compose3(c, j) + j * 3][form]


def eojeol(rng):
    x = rng.random()
    if x < .55:
        return rng.choice(NOUNS) + rng.choice(JOSA + [''])
    if x < .75:
        return rng.choice(VERBS) + rng.choice(ENDS)
    if x < .85:
        return rng.choice(NOUNS) + rng.choice(NOUNS) + rng.choice(JOSA + [''])
    return ''.join(char(rng, 'sssssd') for _ in range(rng.randrange(1, 7)))


def sentence(rng, lo=1, hi=8):
    return ' '.join(eojeol(rng) for _ in range(rng.randrange(lo, hi + 1)))


def small_words(rng, alphabet='가나다', maxlen=5):
    return ''.join(rng.choice(alphabet) for _ in range(rng.randrange(1, maxlen + 1)))


def small_corpus(rng, nsent, alphabet='가나다라', maxlen=5, maxw=6, minw=0):
    return [' '.join(small_words(rng, alphabet, maxlen) for _ in range(rng.randrange(minw, maxw + 1)))
            for _ in range(nsent)]
